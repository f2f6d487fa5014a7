From 668cf51173a6bdcdaac5025428f2a1c30d346540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 01/31] fix: keep the known deltas of a package when a new
 version is added

---
 src/ferryd/core/repo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c0344f5..f9158f7 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -632,6 +632,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	if entry != nil {
 		repoEntry.Available = entry.Available
 		repoEntry.Published = entry.Published
+		repoEntry.Deltas = entry.Deltas
 
 		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
 		if err == nil {
-- 
2.43.0


From 2f43017f3041adc8b7a112ad34196bd14952726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 02/31] fix: stop listing packages and deltas before releasing
 them from the pool

---
 src/ferryd/core/repo.go | 87 ++++++++++++++++++++++++++---------------
 1 file changed, 55 insertions(+), 32 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index f9158f7..f85cb90 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -247,8 +247,15 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 	delete(r.repos, id)
 
-	// Let's iterate over every one of our packages here and start up an unref
-	// cycle
+	repo.insertMut.Lock()
+	defer repo.insertMut.Unlock()
+
+	// Everything we have to unref once it is no longer listed
+	var packageIDs []string
+	var deltaIDs []string
+
+	// Let's iterate over every one of our packages here and remove the entries
+	// in one go
 	err = db.Update(func(db libdb.Database) error {
 		repoBucket := db.Bucket([]byte(DatabaseBucketRepo))
 		rootBucket := repoBucket.Bucket([]byte(repo.ID)).Bucket([]byte(DatabaseBucketPackage))
@@ -261,20 +268,12 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 			}
 
 			// First up, find all the packages to unref
-			for _, id := range entry.Available {
-				if err := repo.removePackageInternal(db, pool, id); err != nil {
-					return err
-				}
-			}
+			packageIDs = append(packageIDs, entry.Available...)
 
 			// Next up, find all the deltas to unref
-			for _, id := range entry.Deltas {
-				if err := repo.removeDeltaInternal(db, pool, id); err != nil {
-					return err
-				}
-			}
+			deltaIDs = append(deltaIDs, entry.Deltas...)
 
-			// Remove all IDs for this package, now we must remove this entry
+			// Now we must remove this entry
 			// Note this isn't applied within the foreach.
 			return rootBucket.DeleteObject([]byte(entry.Name))
 		})
@@ -289,6 +288,18 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		return err
 	}
 
+	// Nothing is listed here anymore, so now the pool may let go of it all
+	for _, id := range packageIDs {
+		if err := repo.removePackageInternal(db, pool, id); err != nil {
+			return err
+		}
+	}
+	for _, id := range deltaIDs {
+		if err := repo.removeDeltaInternal(db, pool, id); err != nil {
+			return err
+		}
+	}
+
 	deletionPaths := []string{
 		repo.path,
 		repo.assetPath,
@@ -450,11 +461,8 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 	return r.putEntry(db, entry)
 }
 
-// Internal helper to remove packages
+// Internal helper to remove packages. The caller must hold our insertMut.
 func (r *Repository) removePackageInternal(db libdb.Database, pool *Pool, id string) error {
-	r.insertMut.Lock()
-	defer r.insertMut.Unlock()
-
 	poolEntry, err := pool.GetEntry(db, id)
 	if err != nil {
 		return nil
@@ -497,6 +505,9 @@ func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id strin
 // Additionally, we'll locate stray deltas which lead either TO or FROM the given
 // package as they'll now be useless to anyone.
 func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) error {
+	r.insertMut.Lock()
+	defer r.insertMut.Unlock()
+
 	newHighest := 0
 	var newHighestID string
 
@@ -512,13 +523,9 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		return err
 	}
 
-	// Try to remove it from disk first
-	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
-		return err
-	}
-
-	// Deltas remaining after removals
+	// Deltas remaining after removals, and those to be removed
 	var remainDeltas []string
+	var dropDeltas []string
 
 	// Check out all the deltas
 	for _, deltaID := range entry.Deltas {
@@ -527,11 +534,9 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 			return err
 		}
 
-		// We found a delta that is referencing us, we must garbage collect it now
+		// We found a delta that is referencing us, we must garbage collect it
 		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {
-			if err := r.removeDeltaInternal(db, pool, pkgDelta.Name); err != nil {
-				return err
-			}
+			dropDeltas = append(dropDeltas, pkgDelta.Name)
 		} else {
 			remainDeltas = append(remainDeltas, pkgDelta.Name)
 		}
@@ -553,7 +558,7 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 		}
 		// Learn highest relno here, it's going to be the published ID
 		curRel := availEntry.Meta.GetRelease()
-		if curRel > newHighest {
+		if newHighestID == "" || curRel > newHighest {
 			newHighest = curRel
 			newHighestID = id
 		}
@@ -567,13 +572,31 @@ func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) e
 
 	rootBucket := db.Bucket([]byte(DatabaseBucketRepo)).Bucket([]byte(r.ID)).Bucket([]byte(DatabaseBucketPackage))
 
-	// Is this package set now "empty"? Then remove it from our indexes
+	// Update our own record first: only once we no longer list an item may the
+	// pool be told to let go of it.
+	//
+	// Is this package set now "empty"? Then remove it from our indexes, along
+	// with any delta still known for it.
 	if len(entry.Available) < 1 {
-		return rootBucket.DeleteObject([]byte(entry.Name))
+		dropDeltas = append(dropDeltas, entry.Deltas...)
+		if err := rootBucket.DeleteObject([]byte(entry.Name)); err != nil {
+			return err
+		}
+	} else if err := r.putEntry(db, entry); err != nil {
+		return err
 	}
 
-	// Stuff it back into the DB with the modified bits in place.
-	return r.putEntry(db, entry)
+	// Now remove it from disk, and drop the pool references
+	if err := r.removePackageInternal(db, pool, pkgID); err != nil {
+		return err
+	}
+	for _, deltaID := range dropDeltas {
+		if err := r.removeDeltaInternal(db, pool, deltaID); err != nil {
+			return err
+		}
+	}
+
+	return nil
 }
 
 // RefPackage will dupe a package from the pool into our own storage
-- 
2.43.0


From 1713db4375f0e6124e9804ca16c4f63721581cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 03/31] fix: drop the pool record before deleting the pool file

---
 src/ferryd/core/pool.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index d0204ae..6b56e65 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -266,7 +266,13 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 		return p.putEntry(db, entry)
 	}
 
-	// RefCount is 0 so we now need to delete this entry
+	// RefCount is 0 so we now need to delete this entry. Drop the record first,
+	// so that there is never a record without a file behind it.
+	b := db.Bucket([]byte(DatabaseBucketPool))
+	if err := b.DeleteObject([]byte(id)); err != nil {
+		return err
+	}
+
 	pkgPath := filepath.Join(p.poolDir, entry.Meta.GetPathComponent(), id)
 	if err := os.Remove(pkgPath); err != nil {
 		log.WithFields(log.Fields{
@@ -283,9 +289,7 @@ func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
 		}).Warning("Failed to remove package parents")
 	}
 
-	// Now remove from DB
-	b := db.Bucket([]byte(DatabaseBucketPool))
-	return b.DeleteObject([]byte(id))
+	return nil
 }
 
 // MarkDeltaFailed will insert a record indicating that it is not possible
-- 
2.43.0


From efc0c20b209647a9b9a2b976cf55ff5a97883396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 04/31] fix: never share one pool item between different
 packages

---
 src/ferryd/core/pool.go | 20 ++++++++++++++++++++
 src/ferryd/core/repo.go | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index 6b56e65..9c2e995 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -17,6 +17,7 @@
 package core
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"path/filepath"
@@ -73,6 +74,19 @@ type PoolEntry struct {
 	Delta         *DeltaInformation     // May actually be nil if not a delta
 }
 
+// ErrPoolItemMismatch is returned when an ID is already taken in the pool by
+// something that isn't the same item.
+var ErrPoolItemMismatch = errors.New("ID is already used by a different item in the pool")
+
+// sameItem determines whether the package really is the one this entry was
+// created for, and not just one that happens to use the same filename.
+func (e *PoolEntry) sameItem(pkg *libeopkg.Package) bool {
+	meta := &pkg.Meta.Package
+	return e.Meta.Name == meta.Name &&
+		e.Meta.Source.Name == meta.Source.Name &&
+		e.Meta.GetRelease() == meta.GetRelease()
+}
+
 // A Pool is used to manage and deduplicate resources between multiple resources,
 // and represents the real backing store for referenced eopkg files.
 type Pool struct {
@@ -161,6 +175,9 @@ func (p *Pool) GetPackagePoolPath(pkg *libeopkg.Package) string {
 func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *DeltaInformation, copyDisk bool) (*PoolEntry, error) {
 	// Check if this is just a simple case of bumping the refcount
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
+		if entry.Delta == nil || !entry.sameItem(pkg) {
+			return nil, ErrPoolItemMismatch
+		}
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
 	}
@@ -187,6 +204,9 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copyDisk bool, delta *DeltaInformation) (*PoolEntry, error) {
 	// Check if this is just a simple case of bumping the refcount
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
+		if (entry.Delta == nil) != (delta == nil) || !entry.sameItem(pkg) {
+			return nil, ErrPoolItemMismatch
+		}
 		entry.RefCount++
 		return entry, p.putEntry(db, entry)
 	}
diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index f85cb90..0b9d5f0 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -352,6 +352,11 @@ func (r *Repository) RefDelta(db libdb.Database, pool *Pool, deltaID string) err
 		return err
 	}
 
+	// Packages are not deltas, even if they are in the pool
+	if poolEntry.Delta == nil {
+		return ErrPoolItemMismatch
+	}
+
 	// Now make sure we actually have the local entry
 	entry, err := r.GetEntry(db, poolEntry.Meta.Name)
 	if err != nil {
@@ -610,6 +615,11 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 		return err
 	}
 
+	// Deltas are never available as packages
+	if poolEntry.Delta != nil {
+		return ErrPoolItemMismatch
+	}
+
 	localPath := pool.GetMetaPoolPath(pkgID, poolEntry.Meta)
 	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
 	targetPath := filepath.Join(targetDir, pkgID)
-- 
2.43.0


From 3203698a46c96e91fbf024390086a2f2ad1ad509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 05/31] fix: trim every version of every obsolete package

---
 src/ferryd/core/repo.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 0b9d5f0..d37cc47 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1213,16 +1213,15 @@ func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
 
 			// Check if its obsolete, if its automatically obsolete through our
 			// dbginfo trick, warn in the console
-			if r.dist != nil && r.dist.IsObsolete(nom) {
+			if r.dist.IsObsolete(nom) || r.dist.IsObsolete(poolEntry.Meta.Name) {
 				if nom != entry.Name {
 					// Scream really loudly, but remove it because its "just" dbginfo.
 					log.WithFields(log.Fields{
 						"repo": r.ID,
 						"name": poolEntry.Meta.Name,
 					}).Error("Abandoned obsolete package. Removing!")
-					removalIDs = append(removalIDs, id)
 				}
-				return nil
+				removalIDs = append(removalIDs, id)
 			}
 		}
 
-- 
2.43.0


From baead3bdab0288b353dec6aff618d97a65e3c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 06/31] fix: trim to the requested number of packages when
 releases are duplicated

---
 src/ferryd/core/repo.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index d37cc47..1d9665c 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1283,6 +1283,14 @@ func (r *Repository) TrimPackages(db libdb.Database, pool *Pool, maxKeep int) er
 
 		sort.Sort(sort.Reverse(libeopkg.PackageSet(candidates)))
 
+		// Should releases be duplicated, then the published one is what we keep
+		for i := maxKeep; i < len(candidates); i++ {
+			if candidates[i].GetID() == entry.Published {
+				candidates[maxKeep-1], candidates[i] = candidates[i], candidates[maxKeep-1]
+				break
+			}
+		}
+
 		for i := maxKeep; i < len(candidates); i++ {
 			id := candidates[i].GetID()
 			// Technically impossible but best to be safe.
-- 
2.43.0


From cd1050429baf669b9086285545871b5bb231f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 07/31] fix: only touch the repository cache with the lock held

---
 src/ferryd/core/repo.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 1d9665c..6d295c9 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -175,6 +175,13 @@ func (r *RepositoryManager) GetRepos(db libdb.Database) ([]*Repository, error) {
 // GetRepo will attempt to get the named repo if it exists, otherwise
 // return an error. This is a transactional helper to make the API simpler
 func (r *RepositoryManager) GetRepo(db libdb.Database, id string) (*Repository, error) {
+	r.repoLock.Lock()
+	defer r.repoLock.Unlock()
+	return r.getRepoLocked(db, id)
+}
+
+// getRepoLocked does the work of GetRepo, the caller must hold our repoLock
+func (r *RepositoryManager) getRepoLocked(db libdb.Database, id string) (*Repository, error) {
 	// Cache each repository.
 	if repo, ok := r.repos[id]; ok {
 		return repo, nil
@@ -203,7 +210,7 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-	if _, err := r.GetRepo(db, id); err == nil {
+	if _, err := r.getRepoLocked(db, id); err == nil {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
@@ -240,7 +247,7 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-	repo, err := r.GetRepo(db, id)
+	repo, err := r.getRepoLocked(db, id)
 	if err != nil {
 		return fmt.Errorf("The specified repository '%s' does not exist", id)
 	}
-- 
2.43.0


From 61b453abe8f9d3c78c3322137956d305dddde65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 08/31] fix: index the target of a copy unless asked to skip it

---
 src/ferryd/core/api.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 71e97de..6183a13 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -123,10 +123,9 @@ func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipI
 	}
 
 	if skipIndex {
-		return m.Index(target)
-	} else {
 		return nil
 	}
+	return m.Index(target)
 }
 
 // TrimObsolete will ask the repo to remove obsolete packages
-- 
2.43.0


From dde73358403cd5fb5e425776df72c912369a6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 09/31] fix: report an unreadable source file when copying

---
 src/ferryd/core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index b70fa06..19c5b1b 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -38,7 +38,7 @@ func CopyFile(source, dest string) error {
 	// Stat the source first
 	st, err = os.Stat(source)
 	if err != nil {
-		return nil
+		return err
 	}
 	if src, err = os.Open(source); err != nil {
 		return err
-- 
2.43.0


From 02d29cd854d248d0bcc0b3da4686a915428da9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 10/31] fix: never truncate the source when copying a file onto
 itself

---
 src/ferryd/core/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 19c5b1b..57e8fc5 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -40,6 +40,10 @@ func CopyFile(source, dest string) error {
 	if err != nil {
 		return err
 	}
+	// Already the very same file, and opening it for writing would destroy it
+	if dstSt, err := os.Stat(dest); err == nil && os.SameFile(st, dstSt) {
+		return nil
+	}
 	if src, err = os.Open(source); err != nil {
 		return err
 	}
-- 
2.43.0


From 6021da68f9503f52d25e5cd4d195eb6e324f4e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 11/31] fix: report a failure to write out a copied file

---
 src/ferryd/core/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 57e8fc5..92133d9 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -56,7 +56,9 @@ func CopyFile(source, dest string) error {
 		dst.Close()
 		return err
 	}
-	dst.Close()
+	if err = dst.Close(); err != nil {
+		return err
+	}
 	// If it fails, meh.
 	os.Chtimes(dest, st.ModTime(), st.ModTime())
 	os.Chown(dest, os.Getuid(), os.Getgid())
-- 
2.43.0


From e47693b1f65045d079d773b129fb9101791fb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 12/31] fix: delta jobs have a handler

---
 src/ferryd/jobs/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ferryd/jobs/main.go b/src/ferryd/jobs/main.go
index 6f36580..b74a466 100644
--- a/src/ferryd/jobs/main.go
+++ b/src/ferryd/jobs/main.go
@@ -146,6 +146,10 @@ func NewJobHandler(j *JobEntry) (JobHandler, error) {
 		return NewCreateRepoJobHandler(j)
 	case DeleteRepo:
 		return NewDeleteRepoJobHandler(j)
+	case Delta:
+		return NewDeltaJobHandler(j, false)
+	case DeltaIndex:
+		return NewDeltaJobHandler(j, true)
 	case DeltaRepo:
 		return NewDeltaRepoJobHandler(j)
 	case IndexRepo:
-- 
2.43.0


From 673acfeca38dabc936b65ae7ba28e1f8634a749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 13/31] fix: localised fields may be missing, or lack more than
 one language

---
 src/libeopkg/main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index 4cf8ee0..2766b90 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -50,9 +50,11 @@ func FixMissingLocalLanguage(fields *[]LocalisedField) {
 	if fields == nil {
 		return
 	}
-	field := &(*fields)[0]
-	if field.Lang == "" {
-		field.Lang = "en"
+	for i := range *fields {
+		field := &(*fields)[i]
+		if field.Lang == "" {
+			field.Lang = "en"
+		}
 	}
 }
 
-- 
2.43.0


From 1d9921280381ba448fef077ee9c6523271f3714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 14/31] fix: reject packages without a name, source name or
 history

---
 src/libeopkg/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index e6aa1ab..0c361fa 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -110,6 +110,10 @@ func (p *Package) ReadMetadata() error {
 	if err = dec.Decode(metadata); err != nil {
 		return err
 	}
+	// We rely on all of these being present
+	if metadata.Package.Name == "" || metadata.Package.Source.Name == "" || len(metadata.Package.History) == 0 {
+		return ErrEopkgCorrupted
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
-- 
2.43.0


From 91a837490cdddc1fef9e058662effa644b0ad7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 15/31] fix: replace the stale process ID in the lock file

---
 src/ferryd/lockfile.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index ec7746a..398c25d 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -19,6 +19,7 @@ package main
 import (
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"sync"
@@ -177,6 +178,13 @@ func (l *LockFile) writePID() error {
 	}
 	l.conlock.Lock()
 	defer l.conlock.Unlock()
+	// A previous owner may have left something longer in here
+	if err := l.fd.Truncate(0); err != nil {
+		return err
+	}
+	if _, err := l.fd.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
 	if _, err := fmt.Fprintf(l.fd, "%d", l.ourPID); err != nil {
 		return err
 	}
-- 
2.43.0


From 8d1737341ba50dd7eeb1a46e0fc80e2c2666f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 16/31] fix: escape characters that are split across two writes

---
 src/ferryd/core/escape.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/escape.go b/src/ferryd/core/escape.go
index c16991f..555eaf4 100644
--- a/src/ferryd/core/escape.go
+++ b/src/ferryd/core/escape.go
@@ -9,7 +9,8 @@ import (
 
 // EscapedWriter is a writer that escapes non-ASCII sequences written to it using HTML encoding.
 type EscapedWriter struct {
-	w io.Writer
+	w       io.Writer
+	pending []byte // Start of a character that continues in the next write
 }
 
 // NewEscapedWriter returns an initialised EscapedWriter.
@@ -20,9 +21,17 @@ func NewEscapedWriter(w io.Writer) *EscapedWriter {
 // Write implements [io.Writer].
 func (e *EscapedWriter) Write(b []byte) (n int, err error) {
 	n = len(b)
+	if len(e.pending) > 0 {
+		b = append(e.pending, b...)
+		e.pending = nil
+	}
 	escaped := make([]byte, 0, len(b))
 
 	for len(b) > 0 {
+		if !utf8.FullRune(b) {
+			e.pending = append([]byte(nil), b...)
+			break
+		}
 		r, size := utf8.DecodeRune(b)
 		escaped = e.appendRune(escaped, r)
 		b = b[size:]
-- 
2.43.0


From b03e602ee5878a2e69f306d29506bf5e4e0758fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 17/31] fix: do not enumerate buckets whose name starts with
 ours

---
 src/libdb/leveldb.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 4dee577..de19788 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -56,7 +56,7 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	handle.db = ldb
 	handle.prefix = []byte("|rootBucket|")
 	handle.keyPrefix = []byte("|rootBucket|-")
-	handle.prefixBytes = util.BytesPrefix(handle.prefix)
+	handle.prefixBytes = util.BytesPrefix(handle.keyPrefix)
 	handle.seqLock = &sync.Mutex{}
 	handle.initClosable()
 	return handle, nil
@@ -153,11 +153,12 @@ func (l *levelDbHandle) Bucket(id []byte) Database {
 	} else {
 		newID = []byte(fmt.Sprintf("%s-%s", string(bucketPrefix), id))
 	}
+	keyPrefix := []byte(fmt.Sprintf("%s-", string(newID)))
 	ret := &levelDbHandle{
 		db:          l.db,
 		prefix:      newID,
-		keyPrefix:   []byte(fmt.Sprintf("%s-", string(newID))),
-		prefixBytes: util.BytesPrefix(newID),
+		keyPrefix:   keyPrefix,
+		prefixBytes: util.BytesPrefix(keyPrefix),
 		batch:       l.batch,
 		seqLock:     l.seqLock,
 	}
-- 
2.43.0


From 82ba862dee9f9c4705a166d010fbf15805fac625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 18/31] fix: do not recreate a repository whose directories
 cannot be prepared

---
 src/ferryd/core/repo.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 6d295c9..3a0bd7e 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -210,7 +210,13 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-	if _, err := r.getRepoLocked(db, id); err == nil {
+	// Create the main sub-bucket for this repo
+	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
+	exists, err := rootBucket.HasObject([]byte(id))
+	if err != nil {
+		return nil, err
+	}
+	if exists {
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
@@ -220,8 +226,6 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 		return nil, fmt.Errorf("The specified repository '%s' has artifacts on disk", id)
 	}
 
-	// Create the main sub-bucket for this repo
-	rootBucket := db.Bucket([]byte(DatabaseBucketRepo))
 	repo := Repository{
 		ID: id,
 	}
-- 
2.43.0


From aa148f0e567b5d651c3751d70085c440bd3d2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 19/31] fix: refuse repository names that are not a single path
 component

---
 src/ferryd/core/repo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 3a0bd7e..a4e9ccb 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -207,6 +207,11 @@ func (r *RepositoryManager) getRepoLocked(db libdb.Database, id string) (*Reposi
 // CreateRepo will create a new repository (bucket) within the top level
 // repo bucket.
 func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repository, error) {
+	// The name is used for directories, never let one repository nest in another
+	if id != filepath.Base(id) || id == "." || id == ".." || id == "/" {
+		return nil, fmt.Errorf("The specified repository name '%s' is not valid", id)
+	}
+
 	r.repoLock.Lock()
 	defer r.repoLock.Unlock()
 
-- 
2.43.0


From b54526c6a4a3284da211480ddf69e1f02f4d6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:03 +0000
Subject: [PATCH 20/31] fix: retire a job and record its completion in one
 transaction

---
 src/ferryd/jobs/store.go | 59 ++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 33 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 292070b..b667e12 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -211,8 +211,9 @@ func (s *JobStore) ClaimSequentialJob() (*JobEntry, error) {
 	return s.claimJobInternal([]byte(BucketSequentialJobs))
 }
 
-// Used to mark the completion of a job and store in the appropriate bucket
-func (s *JobStore) markCompletion(j *JobEntry) error {
+// Used to mark the completion of a job and store in the appropriate bucket, as
+// part of the transaction which removes the job from its queue.
+func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 	var bucketID []byte
 	if j.failure != nil {
 		bucketID = BucketFailJobs
@@ -222,13 +223,13 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 
 	// We're already locked at this point so its safe to work out our next
 	// index
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
+	records := db.Bucket(bucketID).Bucket(BucketRecord)
 	record := IndexRecord{
 		Index: 0,
 	}
 
 	// Try to grab it, otherwise reset it
-	if err := bucket.GetObject(IndexRecordKey, &record); err != nil {
+	if err := records.GetObject(IndexRecordKey, &record); err != nil {
 		record.Index = 0
 	} else {
 		// Grabbed an existing record, so increment the key
@@ -241,7 +242,7 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	}
 
 	// Ensure we update the pointer
-	if err := bucket.PutObject(IndexRecordKey, &record); err != nil {
+	if err := records.PutObject(IndexRecordKey, &record); err != nil {
 		return err
 	}
 
@@ -250,22 +251,18 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	binary.BigEndian.PutUint64(nextID, record.Index)
 
 	// We'll need to figure out how to truncate our buckets..
-	return s.db.Update(func(db libdb.Database) error {
-		bucket := db.Bucket(bucketID)
-
-		storeJob := libferry.Job{
-			Timing:      j.Timing,
-			Description: j.description,
-		}
+	storeJob := libferry.Job{
+		Timing:      j.Timing,
+		Description: j.description,
+	}
 
-		// Mark relevant failure fields
-		if j.failure != nil {
-			storeJob.Error = j.failure.Error()
-			storeJob.Failed = true
-		}
+	// Mark relevant failure fields
+	if j.failure != nil {
+		storeJob.Error = j.failure.Error()
+		storeJob.Failed = true
+	}
 
-		return bucket.PutObject(nextID, &storeJob)
-	})
+	return db.Bucket(bucketID).PutObject(nextID, &storeJob)
 }
 
 // RetireAsyncJob removes a completed asynchronous job
@@ -273,14 +270,12 @@ func (s *JobStore) RetireAsyncJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketAsyncJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketAsyncJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // RetireSequentialJob removes a completed synchronous job
@@ -288,14 +283,12 @@ func (s *JobStore) RetireSequentialJob(j *JobEntry) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketSequentialJobs).DeleteObject(j.id)
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketSequentialJobs).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
 	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
 }
 
 // pushJobInternal is identical between sync and async jobs, it
-- 
2.43.0


From 8a3e39d8f2c887d53940d02ec9d69e9dc763b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:04 +0000
Subject: [PATCH 21/31] fix: reset a job history in one transaction

---
 src/ferryd/jobs/store.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index b667e12..41ddc9e 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -410,19 +410,11 @@ func (s *JobStore) resetInternal(bucketID []byte) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
-	hasIndex, err := bucket.HasObject(IndexRecordKey)
-	if err != nil {
-		return err
-	}
-	if hasIndex {
-		if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+	// batch delete the jobs, together with the index
+	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
+		if err := db.Bucket(BucketRecord).DeleteObject(IndexRecordKey); err != nil {
 			return err
 		}
-	}
-
-	// batch delete the jobs
-	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
 		return db.ForEach(func(k, v []byte) error {
 			return db.DeleteObject(k)
 		})
-- 
2.43.0


From 00ac2f822f91f8ce6a140420ee5b1ac7af3a9f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 22/31] fix: report jobs that could not be stored

---
 src/ferryd/handlers.go         | 44 +++++++++++++++++++++++++---------
 src/ferryd/jobs/delta_repo.go  |  4 +++-
 src/ferryd/jobs/processor.go   | 10 ++++----
 src/ferryd/jobs/pull_repo.go   |  4 +++-
 src/ferryd/jobs/transit_job.go |  4 +++-
 src/ferryd/monitor.go          |  7 +++++-
 6 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/src/ferryd/handlers.go b/src/ferryd/handlers.go
index 09b19a8..7cb0cee 100644
--- a/src/ferryd/handlers.go
+++ b/src/ferryd/handlers.go
@@ -146,7 +146,9 @@ func (s *Server) CreateRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository creation requested")
-	s.jproc.PushJob(jobs.NewCreateRepoJob(id))
+	if err := s.jproc.PushJob(jobs.NewCreateRepoJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // DeleteRepo will handle remote requests for repository deletion
@@ -155,7 +157,9 @@ func (s *Server) DeleteRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository deletion requested")
-	s.jproc.PushJob(jobs.NewDeleteRepoJob(id))
+	if err := s.jproc.PushJob(jobs.NewDeleteRepoJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // DeltaRepo will handle remote requests for repository deltaing
@@ -164,7 +168,9 @@ func (s *Server) DeltaRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository delta requested")
-	s.jproc.PushJob(jobs.NewDeltaRepoJob(id))
+	if err := s.jproc.PushJob(jobs.NewDeltaRepoJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // IndexRepo will handle remote requests for repository indexing
@@ -173,7 +179,9 @@ func (s *Server) IndexRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository indexing requested")
-	s.jproc.PushJob(jobs.NewIndexRepoJob(id))
+	if err := s.jproc.PushJob(jobs.NewIndexRepoJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // ImportPackages will bulk-import the packages in the request
@@ -192,7 +200,9 @@ func (s *Server) ImportPackages(w http.ResponseWriter, r *http.Request, p httpro
 		"npackages": len(req.Path),
 	}).Info("Repository bulk import requested")
 
-	s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path))
+	if err := s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // CloneRepo will proxy a job to clone an existing repository
@@ -212,7 +222,9 @@ func (s *Server) CloneRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 		"fullClone": req.CopyAll,
 	}).Info("Repository clone requested")
 
-	s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
+	if err := s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // PullRepo will proxy a job to pull an existing repository
@@ -231,7 +243,9 @@ func (s *Server) PullRepo(w http.ResponseWriter, r *http.Request, p httprouter.P
 		"target": target,
 	}).Info("Repository pull requested")
 
-	s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target))
+	if err := s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // RemoveSource will proxy a job to remove an existing set of packages by source name + relno
@@ -251,7 +265,9 @@ func (s *Server) RemoveSource(w http.ResponseWriter, r *http.Request, p httprout
 		"repo":    target,
 	}).Info("Source removal requested")
 
-	s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release))
+	if err := s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // CopySource will proxy a job to copy a package by source&relno into target
@@ -273,7 +289,9 @@ func (s *Server) CopySource(w http.ResponseWriter, r *http.Request, p httprouter
 		"skipIndex":  req.SkipIndex,
 	}).Info("Source copy requested")
 
-	s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
+	if err := s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // TrimPackages will proxy a job to remove excess fat from a repo
@@ -292,7 +310,9 @@ func (s *Server) TrimPackages(w http.ResponseWriter, r *http.Request, p httprout
 		"maxKeep": req.MaxKeep,
 	}).Info("Package trim requested")
 
-	s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep))
+	if err := s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // TrimObsolete will proxy a job to remove obsolete packages from a repo
@@ -301,7 +321,9 @@ func (s *Server) TrimObsolete(w http.ResponseWriter, r *http.Request, p httprout
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Obsoletes trim requested")
-	s.jproc.PushJob(jobs.NewTrimObsoleteJob(id))
+	if err := s.jproc.PushJob(jobs.NewTrimObsoleteJob(id)); err != nil {
+		s.sendStockError(err, w, r)
+	}
 }
 
 // ResetCompleted will ask the job store to remove completed jobs. This is blocking.
diff --git a/src/ferryd/jobs/delta_repo.go b/src/ferryd/jobs/delta_repo.go
index 60f70ba..44b12cf 100644
--- a/src/ferryd/jobs/delta_repo.go
+++ b/src/ferryd/jobs/delta_repo.go
@@ -72,7 +72,9 @@ func (j *DeltaRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) e
 
 	// Fire off parallel delta jobs for every package in this repository
 	for _, name := range packageNames {
-		jproc.PushJob(NewDeltaJob(j.repoID, name))
+		if err := jproc.PushJob(NewDeltaJob(j.repoID, name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/processor.go b/src/ferryd/jobs/processor.go
index a62515e..dfc30bd 100644
--- a/src/ferryd/jobs/processor.go
+++ b/src/ferryd/jobs/processor.go
@@ -106,11 +106,11 @@ func (j *Processor) Begin() {
 }
 
 // PushJob will automatically determine which queue to push a job to and place
-// it there for immediate execution
-func (j *Processor) PushJob(job *JobEntry) {
+// it there for immediate execution. If an error is returned, the job was not
+// stored and will never be executed.
+func (j *Processor) PushJob(job *JobEntry) error {
 	if job.sequential {
-		j.store.PushSequentialJob(job)
-	} else {
-		j.store.PushAsyncJob(job)
+		return j.store.PushSequentialJob(job)
 	}
+	return j.store.PushAsyncJob(job)
 }
diff --git a/src/ferryd/jobs/pull_repo.go b/src/ferryd/jobs/pull_repo.go
index 58eb3f6..bf91876 100644
--- a/src/ferryd/jobs/pull_repo.go
+++ b/src/ferryd/jobs/pull_repo.go
@@ -74,7 +74,9 @@ func (j *PullRepoJobHandler) Execute(jproc *Processor, manager *core.Manager) er
 	// Create delta job in this repository on the changed names
 	// Don't cause indexing because it causes noise
 	for _, pkg := range changedNames {
-		jproc.PushJob(NewDeltaIndexJob(j.targetID, pkg))
+		if err := jproc.PushJob(NewDeltaIndexJob(j.targetID, pkg)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/jobs/transit_job.go b/src/ferryd/jobs/transit_job.go
index 5701274..07620fe 100644
--- a/src/ferryd/jobs/transit_job.go
+++ b/src/ferryd/jobs/transit_job.go
@@ -111,7 +111,9 @@ func (j *TransitJobHandler) Execute(jproc *Processor, manager *core.Manager) err
 		if ent != nil {
 			return err
 		}
-		jproc.PushJob(NewDeltaIndexJob(repo, p.Name))
+		if err := jproc.PushJob(NewDeltaIndexJob(repo, p.Name)); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 6e7870b..fb14db1 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -91,5 +91,10 @@ func (s *Server) processTransitManifest(name string) {
 	log.WithFields(log.Fields{
 		"id": name,
 	}).Info("Received transit manifest upload")
-	s.jproc.PushJob(jobs.NewTransitJob(fullpath))
+	if err := s.jproc.PushJob(jobs.NewTransitJob(fullpath)); err != nil {
+		log.WithFields(log.Fields{
+			"id":    name,
+			"error": err,
+		}).Error("Failed to queue transit manifest upload")
+	}
 }
-- 
2.43.0


From 317997212ede7e216ca6e04c9ed9e4ecdaf78094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 23/31] fix: reject clone jobs with an unknown mode

---
 src/ferryd/jobs/clone_repo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ferryd/jobs/clone_repo.go b/src/ferryd/jobs/clone_repo.go
index d697b88..006cc28 100644
--- a/src/ferryd/jobs/clone_repo.go
+++ b/src/ferryd/jobs/clone_repo.go
@@ -49,6 +49,9 @@ func NewCloneRepoJobHandler(j *JobEntry) (*CloneRepoJobHandler, error) {
 	if len(j.Params) != 3 {
 		return nil, fmt.Errorf("job has invalid parameters")
 	}
+	if j.Params[2] != "full" && j.Params[2] != "tip" {
+		return nil, fmt.Errorf("job has invalid clone mode '%s'", j.Params[2])
+	}
 	return &CloneRepoJobHandler{
 		repoID:    j.Params[0],
 		newClone:  j.Params[1],
-- 
2.43.0


From 8a0ccb9b47beb5d0629e605623e8acfadfaaf508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:25 +0000
Subject: [PATCH 24/31] fix: accept every release and limit a request can carry

---
 src/ferryd/jobs/copy_source.go   | 2 +-
 src/ferryd/jobs/remove_source.go | 2 +-
 src/ferryd/jobs/trim_packages.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/jobs/copy_source.go b/src/ferryd/jobs/copy_source.go
index 70cd290..29e1946 100644
--- a/src/ferryd/jobs/copy_source.go
+++ b/src/ferryd/jobs/copy_source.go
@@ -48,7 +48,7 @@ func NewCopySourceJobHandler(j *JobEntry) (*CopySourceJobHandler, error) {
 	if len(j.Params) != 5 {
 		return nil, fmt.Errorf("job has invalid parameters")
 	}
-	rel, err := strconv.ParseInt(j.Params[3], 10, 32)
+	rel, err := strconv.ParseInt(j.Params[3], 10, 0)
 	if err != nil {
 		return nil, err
 	}
diff --git a/src/ferryd/jobs/remove_source.go b/src/ferryd/jobs/remove_source.go
index f382397..f1ca323 100644
--- a/src/ferryd/jobs/remove_source.go
+++ b/src/ferryd/jobs/remove_source.go
@@ -46,7 +46,7 @@ func NewRemoveSourceJobHandler(j *JobEntry) (*RemoveSourceJobHandler, error) {
 	if len(j.Params) != 3 {
 		return nil, fmt.Errorf("job has invalid parameters")
 	}
-	rel, err := strconv.ParseInt(j.Params[2], 10, 32)
+	rel, err := strconv.ParseInt(j.Params[2], 10, 0)
 	if err != nil {
 		return nil, err
 	}
diff --git a/src/ferryd/jobs/trim_packages.go b/src/ferryd/jobs/trim_packages.go
index 6a34e61..095ad0c 100644
--- a/src/ferryd/jobs/trim_packages.go
+++ b/src/ferryd/jobs/trim_packages.go
@@ -45,7 +45,7 @@ func NewTrimPackagesJobHandler(j *JobEntry) (*TrimPackagesJobHandler, error) {
 	if len(j.Params) != 2 {
 		return nil, fmt.Errorf("job has invalid parameters")
 	}
-	keep, err := strconv.ParseInt(j.Params[1], 10, 32)
+	keep, err := strconv.ParseInt(j.Params[1], 10, 0)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 18f5dbf089fdda997d5c65aae7f736e76b77ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:30 +0000
Subject: [PATCH 25/31] fix: keep pool reference counts exact under parallel
 jobs

Delta jobs run on parallel workers, and every pool operation reads an entry,
changes its reference count and writes it back. Two of them at once on the
same item lost a reference, so that the file was freed while a repository
still listed it. Serialise the pool operations.
---
 src/ferryd/core/pool.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/pool.go b/src/ferryd/core/pool.go
index 9c2e995..1084147 100644
--- a/src/ferryd/core/pool.go
+++ b/src/ferryd/core/pool.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sync"
 
 	log "github.com/sirupsen/logrus"
 
@@ -90,7 +91,8 @@ func (e *PoolEntry) sameItem(pkg *libeopkg.Package) bool {
 // A Pool is used to manage and deduplicate resources between multiple resources,
 // and represents the real backing store for referenced eopkg files.
 type Pool struct {
-	poolDir string // Storage area
+	poolDir string     // Storage area
+	mut     sync.Mutex // Reference counts are read and rewritten by parallel jobs
 }
 
 // Init will create our initial working paths and DB bucket
@@ -173,6 +175,9 @@ func (p *Pool) GetPackagePoolPath(pkg *libeopkg.Package) string {
 // information too. Note that a delta package is still a package in its own
 // right, its just installed and handled differently (lacking files, etc.)
 func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *DeltaInformation, copyDisk bool) (*PoolEntry, error) {
+	p.mut.Lock()
+	defer p.mut.Unlock()
+
 	// Check if this is just a simple case of bumping the refcount
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
 		if entry.Delta == nil || !entry.sameItem(pkg) {
@@ -200,7 +205,7 @@ func (p *Pool) AddDelta(db libdb.Database, pkg *libeopkg.Package, mapping *Delta
 }
 
 // addPackageInternal used by both AddDelta and AddPackage for the main bulk of
-// the work
+// the work. The caller must hold our lock.
 func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copyDisk bool, delta *DeltaInformation) (*PoolEntry, error) {
 	// Check if this is just a simple case of bumping the refcount
 	if entry, err := p.GetEntry(db, pkg.ID); err == nil {
@@ -259,12 +264,18 @@ func (p *Pool) addPackageInternal(db libdb.Database, pkg *libeopkg.Package, copy
 // to actually push it on disk, or simply bump the ref count. Any file
 // passed to us is believed to be under our ownership now.
 func (p *Pool) AddPackage(db libdb.Database, pkg *libeopkg.Package, copy bool) (*PoolEntry, error) {
+	p.mut.Lock()
+	defer p.mut.Unlock()
+
 	return p.addPackageInternal(db, pkg, copy, nil)
 }
 
 // RefEntry will include the given eopkg if it doesn't yet exist, otherwise
 // it will simply increase the ref count by 1.
 func (p *Pool) RefEntry(db libdb.Database, id string) error {
+	p.mut.Lock()
+	defer p.mut.Unlock()
+
 	entry, err := p.GetEntry(db, id)
 	if err != nil {
 		return err
@@ -277,6 +288,9 @@ func (p *Pool) RefEntry(db libdb.Database, id string) error {
 // Should the refcount hit 0, the package will then be removed from the pool
 // storage.
 func (p *Pool) UnrefEntry(db libdb.Database, id string) error {
+	p.mut.Lock()
+	defer p.mut.Unlock()
+
 	entry, err := p.GetEntry(db, id)
 	if err != nil {
 		return err
-- 
2.43.0


From 0d3b63e882a6032b3b3cf0d0c2f0beb946b620c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 26/31] fix: only remove the lock file while holding the lock

---
 src/ferryd/lockfile.go | 9 +++++----
 src/ferryd/server.go   | 1 -
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index 398c25d..e23a219 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -143,6 +143,7 @@ func (l *LockFile) Unlock() error {
 	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_UN); err != nil {
 		return err
 	}
+	l.owner = false
 	return nil
 }
 
@@ -199,9 +200,9 @@ func (l *LockFile) Clean() error {
 		return nil
 	}
 
+	// Closing it gives up the lock, and then the file isn't ours to remove
+	err := os.Remove(l.path)
 	l.fd.Close()
-	if l.owner {
-		return os.Remove(l.path)
-	}
-	return nil
+	l.owner = false
+	return err
 }
diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 1fecf22..059b00d 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -232,7 +232,6 @@ func (s *Server) Close() {
 		return
 	}
 	if s.lockFile != nil {
-		s.lockFile.Unlock()
 		s.lockFile.Clean()
 		s.lockFile = nil
 	}
-- 
2.43.0


From 96fe4a7022a39996aecbfca03edbb34c15be1c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 27/31] fix: another user's process is a live lock owner too

---
 src/ferryd/lockfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index e23a219..5151b0b 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -106,7 +106,7 @@ func (l *LockFile) Lock() error {
 		// Process is still active
 		// Unix this always works
 		p, _ := os.FindProcess(pid)
-		if err2 := p.Signal(syscall.Signal(0)); err2 == nil {
+		if err2 := p.Signal(syscall.Signal(0)); err2 == nil || errors.Is(err2, syscall.EPERM) {
 			if p.Pid != l.ourPID {
 				l.owningPID = p.Pid
 				return ErrOwnedLockFile
-- 
2.43.0


From 4f591b1694112fd7c844f7894ed27a5e9a7317bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:14 +0000
Subject: [PATCH 28/31] fix: do not lock a file that is no longer the lock file

---
 src/ferryd/lockfile.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index 5151b0b..f164ad3 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -122,6 +122,14 @@ func (l *LockFile) Lock() error {
 		return err
 	}
 
+	// Whoever cleaned up since we opened the file has made room for another one
+	if !l.isCurrent() {
+		syscall.Flock(int(l.fd.Fd()), syscall.LOCK_UN)
+		l.owner = false
+		l.conlock.Unlock()
+		return ErrOwnedLockFile
+	}
+
 	l.owner = true
 
 	l.conlock.Unlock()
@@ -147,6 +155,16 @@ func (l *LockFile) Unlock() error {
 	return nil
 }
 
+// isCurrent will determine if the file we have open is still the lock file
+func (l *LockFile) isCurrent() bool {
+	ours, err := l.fd.Stat()
+	if err != nil {
+		return false
+	}
+	current, err := os.Stat(l.path)
+	return err == nil && os.SameFile(ours, current)
+}
+
 // readPID is a simple utility to extract the PID from a file
 func (l *LockFile) readPID() (int, error) {
 	l.conlock.RLock()
-- 
2.43.0


From efe3da481fea128c7cc14b6322df2f91f47235b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:03 +0000
Subject: [PATCH 29/31] fix: do not index deltas a package's own metadata
 claims

pushDeltaPackages only replaced the deltas recorded in the pool's copy of
the metadata when the repository listed applicable ones, so whatever an
uploaded metadata.xml carried was offered to clients otherwise.
---
 src/ferryd/core/repo_index.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ferryd/core/repo_index.go b/src/ferryd/core/repo_index.go
index 6a8f0ba..ff8d708 100644
--- a/src/ferryd/core/repo_index.go
+++ b/src/ferryd/core/repo_index.go
@@ -157,6 +157,9 @@ func (r *Repository) pushDeltaPackages(db libdb.Database, pool *Pool, entry *Poo
 		})
 	}
 
+	// Only ever offer what we list ourselves, not what the package claims
+	entry.Meta.DeltaPackages = nil
+
 	// Deltas implicitly sorted by sort.Strings on their IDs
 	if deltas != nil && len(deltas) > 0 {
 		entry.Meta.DeltaPackages = &deltas
-- 
2.43.0


From ae5b0fe6a0597a46959c18366f044ab127f720b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:03 +0000
Subject: [PATCH 30/31] fix: do not publish an index that could not be written
 out

---
 src/ferryd/core/repo_index.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/repo_index.go b/src/ferryd/core/repo_index.go
index ff8d708..543853d 100644
--- a/src/ferryd/core/repo_index.go
+++ b/src/ferryd/core/repo_index.go
@@ -322,7 +322,9 @@ func (r *Repository) Index(db libdb.Database, pool *Pool) error {
 
 	// Write the index file
 	errAbort = r.emitIndex(db, pool, f)
-	f.Close()
+	if err := f.Close(); errAbort == nil {
+		errAbort = err
+	}
 	if errAbort != nil {
 		return errAbort
 	}
-- 
2.43.0


From 030e1908687e944267ef4b983ab3ff49c3d124c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:23 +0000
Subject: [PATCH 31/31] fix: reject packages whose source name is not a single
 path component

---
 src/libeopkg/package.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index 0c361fa..460fc08 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -114,6 +114,10 @@ func (p *Package) ReadMetadata() error {
 	if metadata.Package.Name == "" || metadata.Package.Source.Name == "" || len(metadata.Package.History) == 0 {
 		return ErrEopkgCorrupted
 	}
+	// The source name is used for directories, never let it lead out of them
+	if src := metadata.Package.Source.Name; src != filepath.Base(src) || src == "." || src == ".." || src == "/" {
+		return ErrEopkgCorrupted
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
-- 
2.43.0


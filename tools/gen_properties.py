#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below.
import json,os
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
R="src/ferryd/core/repo.go";PO="src/ferryd/core/pool.go";API="src/ferryd/core/api.go";IX="src/ferryd/core/repo_index.go";U="src/ferryd/core/util.go"
p("C01","Pool reference counts equal the number of listing repositories",
 "After every repository operation that completes successfully (package or delta inclusion, clone, pull, source copy, source removal, trims, repository deletion), the reference count of each package and delta in the shared pool equals the number of repositories that list it, and an item no repository lists is not in the pool. Operating on one repository never changes what another repository lists, nor any pool item the operation did not add to or remove from that repository.",
 ["histories","inputs"],"every reachable pool/repository state, every repository content, every argument of every operation; any number of repositories, packages, versions and deltas",
 "the tests never open a pool or repository; the count is an inductive invariant over all histories and all other repositories",
 [R,PO,API],[("reference/unreference of pool entries","pool.go RefEntry/UnrefEntry/addPackageInternal/AddDelta"),("repository inclusion/removal","repo.go RefPackage/RefDelta/AddLocalPackage/AddLocalDelta/UnrefPackage/DeleteRepo")],
 [("pool bucket","one record per stored package with its reference count","pool.go"),("repo/<id>/package buckets","per name: available, published, deltas","repo.go")],["list-pool, list-repos, pool database"])
p("C02","Nothing a repository lists is ever freed, even by a crash midway",
 "At every instant of every operation, so also if the daemon dies or an operation stops with an error there, each package or delta that any repository lists still has its pool record, counted at least once per repository listing it, and its data file in the pool. A pool file is deleted, and its record dropped, only when the last repository that listed it has stopped listing it, and then both go.",
 ["crash_points","fault_sequences","histories"],"every interruption point between two durable effects of every operation, every failing filesystem call, every reachable state",
 "tests cannot enumerate crash points and pool states; no test removes a package",
 [R,PO],[("order of database and file effects","repo.go UnrefPackage, removePackageInternal; pool.go UnrefEntry")],
 [("pool files","<base>/pool/<component>/<id>","pool.go")])
p("C03","The published version is the newest available one",
 "In every repository, for every package name it lists, the available versions are non-empty, sorted and free of duplicates, the published version is one of them, and no available version has a higher release number. This holds after every inclusion in any order (adding an older build never moves the tip) and after every removal (the tip moves to the highest remaining release; a name whose last version goes disappears).",
 ["histories","inputs"],"all insertion and removal orders, all release numbers including zero and negative ones, duplicate release numbers",
 "the maximum over an arbitrary set after an arbitrary history; tests never insert two versions",
 [R],[("tip selection on insert","repo.go buildSaneEntry"),("tip selection on removal","repo.go UnrefPackage")])
p("C04","Uploads must strictly increase the release",
 "A package arriving through a verified upload is included only if the target repository does not list its name yet or its release is strictly higher than the currently published release of that name; otherwise the operation fails with an error and the repository and pool are unchanged by that package. An administrator's bulk import accepts any release.",
 ["inputs","histories"],"all releases, versions and repository states",
 "the comparison must hold for every pair of releases and every published state; no test uploads",
 [R,API,"src/ferryd/jobs/transit_job.go","src/ferryd/jobs/bulk_add.go"],[("strict check","repo.go AddPackage")])
p("C05","An upload is merged only when complete and verified",
 "An upload manifest is accepted only if it declares the supported format version, a non-empty target and at least one file, every file entry having a non-empty path ending in .eopkg and a non-empty checksum; its payload is valid only if every listed file, not just some, can be read and has exactly the listed SHA-256. No package of an upload is offered to a repository, and no uploaded file is deleted, unless all these checks passed and inclusion succeeded.",
 ["inputs"],"all manifests (any number of files, any order of good and bad entries) and all file contents",
 "one parse test on one good manifest; a universal over list positions",
 ["src/ferryd/core/transit_manifest.go","src/ferryd/jobs/transit_job.go"],[("header and entry checks","transit_manifest.go NewTransitManifest"),("payload hashing","transit_manifest.go ValidatePayload"),("processing order","transit_job.go Execute")])
p("C06","Pull brings in exactly what is missing or newer",
 "A successful pull adds to the target, for each name in the source, the source's published version when the target lacks the name or publishes a strictly lower release of it, and adds nothing else; nothing is removed from the target, the source is untouched, and the reported changed names are exactly the names added to. If the target already publishes a higher release of some name than the source, the pull fails and adds no package.",
 ["inputs","histories"],"all pairs of repositories and all names and releases in them",
 "needs every pair of repository contents; no test has two repositories",
 [R,API],[("diff loop","repo.go PullFrom")])
p("C07","A clone lists what was asked of its source",
 "Cloning creates a new repository: a full clone lists, for every name, exactly the source's available versions and deltas; a tip clone lists exactly one version per name, the source's published one, and no deltas. The source and every other repository are unchanged, and a name that already exists is refused.",
 ["inputs","histories"],"all source repositories",
 "universal over repository contents",
 [R,API],[("clone loop","repo.go CloneFrom")])
p("C08","Source removal and copy touch exactly the matching packages",
 "Removing by source name and release (a release that is not positive meaning any) removes from that repository exactly the available packages of every name whose source name and release match, plus deltas to or from them; copying adds exactly the matching packages of the source repository to the target. If nothing matches, the operation fails and changes nothing; the target of a copy is re-indexed unless the caller asked to skip indexing, and a removal always re-indexes.",
 ["inputs","histories"],"all repositories, source names and releases, both index flags",
 "universal over contents and arguments",
 [R,API],[("matching loops","repo.go RemoveSource/CopySourceFrom"),("index flag","api.go CopySource")])
p("C09","Trimming keeps the newest versions and the published one",
 "Trimming to a maximum of N versions (N at least 1, otherwise an error and no change) leaves each name that had more than N versions with N of them such that no removed version has a higher release than a kept one, and always keeps the published version; names with N or fewer versions are untouched.",
 ["inputs","histories"],"all repositories, version counts, release orders and N",
 "order statistics over arbitrary sets; no test trims",
 [R,"src/libeopkg/main.go"],[("sort and cut","repo.go TrimPackages"),("ordering","libeopkg PackageSet")])
p("C10","Obsolete trimming removes all and only obsolete packages",
 "Trimming obsoletes removes every version of every package whose name, or whose name without a -dbginfo suffix, the repository's distribution metadata marks obsolete, and removes no other package; without distribution metadata it fails and changes nothing.",
 ["inputs","histories"],"all repositories and obsolete sets",
 "universal over contents and obsolete lists",
 [R,"src/libeopkg/distribution.go"],[("selection loop","repo.go TrimObsolete"),("obsolete lookup","distribution.go IsObsolete")])
p("C11","The index lists exactly the published, non-obsolete packages",
 "A generated index contains exactly one package record per name the repository lists and does not mark obsolete (directly or as -dbginfo of an obsolete name): its published version, in ascending order of package ID. Each record offers exactly the repository's deltas of that package whose target release is the published release, each with its source release, location, size and hash.",
 ["inputs","histories"],"all repositories, obsolete sets and delta sets",
 "universal over contents; no test emits an index",
 [IX],[("selection","repo_index.go emitIndex"),("obsolete filter","repo_index.go emitIndexPackage"),("delta filter","repo_index.go pushDeltaPackages")])
p("C12","Index publication never exposes a partial or failed index",
 "Index files are prepared under temporary names and moved onto their public names only after every one of them was produced without error; if any step before that fails, the previously published index, compressed indexes and checksum files are left exactly as they were, the operation reports the failure and the temporary files are removed. On success all nine public files (index, xz, zst and the SHA-1 and SHA-256 of each) are replaced and each checksum file holds the digest of the file it names.",
 ["fault_sequences","inputs"],"every failing step and every combination of pre-existing files",
 "fault sequences; no test indexes",
 [IX,U],[("staging and rename","repo_index.go Index")])
p("C13","Deltas lead from an older release to the tip of the same package",
 "A delta job for a name only ever attempts, includes or re-uses deltas whose target is a highest-release available version and whose source is another available version, skips pairs already recorded as failed or already present, and records a pair as failed only when producing it was pointless. Two packages are delta-compatible exactly when names, distribution release and architecture are equal and the old release is strictly lower, and the delta's name determines both releases.",
 ["inputs","histories"],"all version sets, skip records and existing deltas",
 "one positive and one negative pair tested",
 ["src/ferryd/jobs/delta.go","src/libeopkg/delta.go",R,PO],[("candidate loop","delta.go executeInternal"),("compatibility","libeopkg IsDeltaPossible/ComputeDeltaName")])
p("C14","Jobs run in submission order, each claimed once, none lost",
 "Within a queue, claiming returns the waiting job submitted earliest, marks it claimed so it is not handed out again, and leaves every other job as it was; when no waiting job exists it reports an empty queue. A submitted job stays stored until it is retired, retiring removes exactly that job from its own queue, and after a restart every job that had been claimed but not retired is waiting again with its original order, type and parameters.",
 ["histories","crash_points"],"all interleavings of push, claim, retire and restart as sequences of store operations; any queue content",
 "tests push and claim one fixed sequence",
 ["src/ferryd/jobs/store.go","src/libdb/leveldb.go"],[("claim","store.go claimJobInternal"),("sequence keys","leveldb.go NextSequence"),("restart","store.go unclaimJobs")])
p("C15","Finished jobs are recorded once, in the right bounded history",
 "Retiring a job adds one record, with its description and timing, to the failed history with its error text if it failed and otherwise to the completed history, leaving the other history unchanged. Each history holds at most the 100 most recent records, a new record replacing the oldest once full, and resetting one history empties it and restarts its numbering without touching the other or any queued job.",
 ["histories"],"any number of completions and resets",
 "wrap-around after 100 and resets in between are not reached by the tests",
 ["src/ferryd/jobs/store.go"],[("ring index","store.go markCompletion"),("reset","store.go resetInternal")])
p("C16","A request performs the requested operation with its parameters",
 "Every administrative request, once accepted, stores a job that, also after being saved and reloaded, executes the corresponding repository operation with exactly the repository names, source, release, limits and flags of the request, on the queue meant for it; a job whose stored parameters are malformed is rejected rather than executed. Every kind of job the daemon can create has a handler, and a failing operation marks the job failed.",
 ["inputs"],"all request bodies, names, numbers (within 32-bit range for releases) and flags; every job kind",
 "tests never run a handler; arguments can be swapped silently because most are strings",
 ["src/ferryd/handlers.go","src/ferryd/jobs/main.go","src/ferryd/jobs"],[("job constructors and handlers","src/ferryd/jobs/*.go"),("dispatch","jobs/main.go NewJobHandler"),("execution","jobs/worker.go processJob")])
p("C17","Storage buckets are isolated and transactions all-or-nothing",
 "A value stored under a key in a bucket is returned for exactly that bucket and key until overwritten or deleted there, and enumerating a bucket visits exactly that bucket's live keys once each in ascending order. Writes made inside a write transaction become visible together when it succeeds and none becomes visible when it fails, a sequence key handed out for a bucket that is filled through sequence keys is greater than every key in it, and reserved keys are refused.",
 ["inputs","histories"],"all keys, bucket paths and transaction bodies",
 "tests use a handful of keys; key-encoding clashes and failed transactions are not sampled",
 ["src/libdb/leveldb.go","src/libdb/transcoder.go"],[("key encoding","leveldb.go getRealKey/Bucket"),("batching","leveldb.go Update/PutObject/DeleteObject")])
p("C18","Index text escaping is independent of write chunking",
 "The bytes the escaping writer emits depend only on the concatenation of what was written to it, not on how it was split into writes: every character that needs escaping becomes its numeric character reference and every other valid character is passed through unchanged, including characters split across two writes. The writer reports the number of input bytes consumed, and an error from the underlying writer is reported.",
 ["inputs"],"all byte strings and all ways to split them",
 "the tests write each sample in one piece",
 ["src/ferryd/core/escape.go"],[("rune decoding","escape.go Write/appendRune/mustEscape")])
p("C19","Creating or deleting a repository affects only that repository",
 "Creating a repository succeeds only if no repository or leftover directory of that name exists, and then it exists and lists nothing. Deleting one removes the repository, everything it listed and its own directories, so the name can be created again; every other repository, its listing and its directories are untouched, and deleting an unknown repository fails and changes nothing.",
 ["inputs","histories"],"all names and all repository sets",
 "universal over states; no test creates a repository",
 [R,API],[("create/delete","repo.go CreateRepo/DeleteRepo/bakeRepo/GetRepo")])
p("C20","A malformed package is rejected, never crashes the daemon",
 "Whatever an incoming package archive's metadata contains or omits, reading and including it either succeeds or returns an error; it never crashes the daemon. Every package whose metadata was accepted has a non-empty name, a source name that is a single path component, and at least one history entry, and its localized texts all carry a language.",
 ["inputs"],"all metadata documents, including missing names, sources, histories, summaries",
 "tests read two well-formed packages",
 ["src/libeopkg/package.go","src/libeopkg/metadata.go","src/libeopkg/util.go","src/libeopkg/main.go"],[("metadata reading","package.go ReadMetadata"),("accessors","metadata.go GetRelease/GetVersion/GetPathComponent"),("language fix-up","main.go FixMissingLocalLanguage")])
p("C21","The daemon lock admits one owner and records its process ID",
 "Taking the daemon lock succeeds only when the exclusive lock on the lock file was obtained and no live process is recorded in it as owner, and then the file contains exactly the taker's process ID, whatever it contained before; otherwise an error is returned and, unless writing the new owner failed after the lock had been obtained, the recorded owner is unchanged. Only the owner can unlock or remove the lock file.",
 ["inputs","histories"],"all previous file contents and owner states",
 "tests lock a fresh file",
 ["src/ferryd/lockfile.go"],[("lock/PID","lockfile.go Lock/readPID/writePID/Unlock/Clean")])
p("C22","File copy and link never lose data and never lie",
 "Placing a file at a destination by copy or link returns success only if afterwards the destination has exactly the source's content, and the source always keeps its content, even when the destination already exists or already is the same file through another hard link. Tidying up after removing a package deletes only empty directories, and a file's reported digest is that of its content.",
 ["inputs","fault_sequences"],"all pre-existing destinations, link states and failing calls",
 "no test copies files",
 [U],[("copy/link","util.go CopyFile/LinkOrCopyFile"),("cleanup","util.go RemovePackageParents")])
p("C23","Repository listings are only changed under the repository's lock",
 "Every operation that changes what a repository lists reads and rewrites the affected record while holding that repository's insertion lock, and every lock taken is released on every path, including errors.",
 ["schedules","fault_sequences"],"all interleavings of operations from the sequential and parallel job workers, every error path",
 "needs schedules; tests are single-threaded",
 [R],[("insertMut/indexMut/repoLock","repo.go, repo_index.go"),("modMut","jobs/store.go")])
p("C24","Shutdown and worker polling make progress",
 "Every queued job is eventually executed while the daemon runs, and a requested shutdown eventually completes once the running jobs have finished.",
 ["schedules"],"all schedules of workers and timers",
 "liveness over infinite schedules",
 ["src/ferryd/jobs/worker.go","src/ferryd/jobs/processor.go","src/ferryd/server.go"],[("poll loop","worker.go Start"),("close","processor.go Close")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")

// Contracts for the job store and the jobs (src/ferryd/jobs).

shape async "jobs:Async" jobs.JobEntry
shape sync "jobs:Sync" jobs.JobEntry
shape done "jobs:CompletedSuccess" libferry.Job
shape failed "jobs:CompletedFailure" libferry.Job
shape donePos "jobs:CompletedSuccess/Record" jobs.IndexRecord
shape failedPos "jobs:CompletedFailure/Record" jobs.IndexRecord

func iskey8(Str) Bool
func be64(Int) Str
func unbe64(Str) Int
func errtext(Err) Str

// queues are numbered by sequence keys
def wfQueue(q: map[Str]opt jobs.JobEntry) = forall k: Str {q[k]} :: some(q[k]) ==> iskey8(k)
def waiting(x: opt jobs.JobEntry) = some(x) && !x.Claimed
// the same job, whatever its claim and its start and end times
def sameJob(a: opt jobs.JobEntry, b: opt jobs.JobEntry) = a.Type == b.Type && a.Params == b.Params && a.Timing.Queued == b.Timing.Queued
// b claims its earliest waiting job k
def claims(a: map[Str]opt jobs.JobEntry, b: map[Str]opt jobs.JobEntry, k: Str) = waiting(a[k]) && some(b[k]) && b[k].Claimed
  && sameJob(b[k], a[k]) && b == store(a, k, b[k])
  && (forall x: Str {a[x]} :: waiting(a[x]) ==> k <= x)
def noneWaiting(q: map[Str]opt jobs.JobEntry) = forall x: Str {q[x]} :: !waiting(q[x])
def histSame = unchanged(done) && unchanged(failed) && unchanged(donePos) && unchanged(failedPos)


// after a restart everything waits again, with its order, type and parameters
def requeued(a: map[Str]opt jobs.JobEntry, b: map[Str]opt jobs.JobEntry) = forall k: Str {a[k]} {b[k]} :: some(b[k]) == some(a[k]) && (some(a[k]) ==> waiting(b[k]) && sameJob(b[k], a[k]))
// b is a with k, after everything queued, as a new waiting job
def pushed(a: map[Str]opt jobs.JobEntry, b: map[Str]opt jobs.JobEntry, k: Str) = iskey8(k) && !some(a[k]) && waiting(b[k]) && b == store(a, k, b[k])
  && (forall x: Str {a[x]} :: some(a[x]) ==> !(k <= x))

// ---- histories: rings of 100 records ----------------------------------------
def POS = "IndexRecord00"
def ringed(h: map[Str]opt libferry.Job, p: map[Str]opt jobs.IndexRecord) = if some(p[POS])
  then 0 <= p[POS].Index && p[POS].Index < 100
    && ((forall k: Str {h[k]} :: some(h[k]) == (iskey8(k) && unbe64(k) <= p[POS].Index)) || (forall k: Str {h[k]} :: some(h[k]) == (iskey8(k) && unbe64(k) < 100)))
  else (forall k: Str {h[k]} :: !some(h[k]))
def RINGS = ringed(done, donePos) && ringed(failed, failedPos)
// the slot after the last one written, which holds the oldest record when all are taken
def nextSlot(p: map[Str]opt jobs.IndexRecord) = if some(p[POS]) && p[POS].Index < 99 then p[POS].Index + 1 else 0
def recorded(j: Int, h0: map[Str]opt libferry.Job, h: map[Str]opt libferry.Job, p0: map[Str]opt jobs.IndexRecord, p: map[Str]opt jobs.IndexRecord) =
  h == store(h0, be64(nextSlot(p0)), h[be64(nextSlot(p0))]) && p == store(p0, POS, p[POS]) && some(p[POS]) && p[POS].Index == nextSlot(p0)
  && some(h[be64(nextSlot(p0))]) && h[be64(nextSlot(p0))].Description == j.description && h[be64(nextSlot(p0))].Timing == j.Timing
  && h[be64(nextSlot(p0))].Failed == !ok(j.failure) && h[be64(nextSlot(p0))].Error == (if ok(j.failure) then "" else errtext(j.failure))
def RECORDED(j: Int) = if ok(j.failure)
  then recorded(j, old(done), done, old(donePos), donePos) && unchanged(failed) && unchanged(failedPos)
  else recorded(j, old(failed), failed, old(failedPos), failedPos) && unchanged(done) && unchanged(donePos)

contract "jobs.(*JobStore).ClaimAsyncJob"(s)(job, err) {
  guarded async by s.modMut
  requires wfQueue(async) && wfQueue(sync)
  modifies async
  candidate forall x: Str {async[x]} {x in pre($L, $I)} :: x in pre($L, $I) ==> !waiting(async[x])
  ensures first: ok(err) ==> some(job) && claims(old(async), async, job.id) && sameJob(async[job.id], job)
  ensures unfailed: ok(err) ==> ok(job.failure)
  ensures kept: !ok(err) ==> async == old(async)
  ensures empty: err == gerr("jobs.ErrEmptyQueue") ==> noneWaiting(old(async))
  ensures wf: wfQueue(async)
  always [C14] atomic: async == old(async) || (exists k: Str :: claims(old(async), async, k))
}
contract "jobs.(*JobStore).RetireAsyncJob"(s, j)(err) {
  guarded async by s.modMut
  guarded [C15] done by s.modMut
  guarded [C15] failed by s.modMut
  guarded [C15] donePos by s.modMut
  guarded [C15] failedPos by s.modMut
  requires wfQueue(async) && wfQueue(sync)
  requires [C15] RINGS
  modifies async, done, failed, donePos, failedPos
  ensures wf: wfQueue(async)
  ensures gone: ok(err) ==> async == without(old(async), j.id)
  ensures kept: !ok(err) ==> async == old(async)
  ensures [C15] recorded: ok(err) ==> RECORDED(j)
  ensures [C15] unrecorded: !ok(err) ==> histSame
  ensures [C15] rings: RINGS
  always [C15] atomic: (async == old(async) && histSame) || (async == without(old(async), j.id) && RECORDED(j))
}
contract "jobs.(*JobStore).PushAsyncJob"(s, j)(err) {
  guarded async by s.modMut
  requires wfQueue(async) && wfQueue(sync)
  modifies async, j.Timing, j.Claimed, j.id
  ensures wf: wfQueue(async)
  ensures last: ok(err) ==> pushed(old(async), async, j.id) && async[j.id].Type == old(j.Type) && async[j.id].Params == old(j.Params)
  ensures kept: !ok(err) ==> async == old(async)
}
contract "jobs.(*JobStore).UnclaimAsync"(s)(err) {
  guarded async by s.modMut
  requires wfQueue(async) && wfQueue(sync)
  modifies async
  candidate forall x: Str {pend(async)[x]} {x in pre($L, $I)} :: x in pre($L, $I) ==> some(pend(async)[x]) && waiting(pend(async)[x]) && sameJob(pend(async)[x], old(async[x]))
  candidate forall x: Str {pend(async)[x]} {x in pre($L, $I)} :: !(x in pre($L, $I)) ==> pend(async)[x] == old(async[x])
  ensures wf: wfQueue(async)
  ensures all: ok(err) ==> requeued(old(async), async)
  ensures kept: !ok(err) ==> async == old(async)
  always [C14] stored: async == old(async) || requeued(old(async), async)
}

contract "jobs.(*JobStore).ClaimSequentialJob"(s)(job, err) {
  guarded sync by s.modMut
  requires wfQueue(async) && wfQueue(sync)
  modifies sync
  candidate forall x: Str {sync[x]} {x in pre($L, $I)} :: x in pre($L, $I) ==> !waiting(sync[x])
  ensures first: ok(err) ==> some(job) && claims(old(sync), sync, job.id) && sameJob(sync[job.id], job)
  ensures unfailed: ok(err) ==> ok(job.failure)
  ensures kept: !ok(err) ==> sync == old(sync)
  ensures empty: err == gerr("jobs.ErrEmptyQueue") ==> noneWaiting(old(sync))
  ensures wf: wfQueue(sync)
  always [C14] atomic: sync == old(sync) || (exists k: Str :: claims(old(sync), sync, k))
}
contract "jobs.(*JobStore).RetireSequentialJob"(s, j)(err) {
  guarded sync by s.modMut
  guarded [C15] done by s.modMut
  guarded [C15] failed by s.modMut
  guarded [C15] donePos by s.modMut
  guarded [C15] failedPos by s.modMut
  requires wfQueue(async) && wfQueue(sync)
  requires [C15] RINGS
  modifies sync, done, failed, donePos, failedPos
  ensures wf: wfQueue(sync)
  ensures gone: ok(err) ==> sync == without(old(sync), j.id)
  ensures kept: !ok(err) ==> sync == old(sync)
  ensures [C15] recorded: ok(err) ==> RECORDED(j)
  ensures [C15] unrecorded: !ok(err) ==> histSame
  ensures [C15] rings: RINGS
  always [C15] atomic: (sync == old(sync) && histSame) || (sync == without(old(sync), j.id) && RECORDED(j))
}
contract "jobs.(*JobStore).PushSequentialJob"(s, j)(err) {
  guarded sync by s.modMut
  requires wfQueue(async) && wfQueue(sync)
  modifies sync, j.Timing, j.Claimed, j.id
  ensures wf: wfQueue(sync)
  ensures last: ok(err) ==> pushed(old(sync), sync, j.id) && sync[j.id].Type == old(j.Type) && sync[j.id].Params == old(j.Params)
  ensures kept: !ok(err) ==> sync == old(sync)
}
contract "jobs.(*JobStore).UnclaimSequential"(s)(err) {
  guarded sync by s.modMut
  requires wfQueue(async) && wfQueue(sync)
  modifies sync
  candidate forall x: Str {pend(sync)[x]} {x in pre($L, $I)} :: x in pre($L, $I) ==> some(pend(sync)[x]) && waiting(pend(sync)[x]) && sameJob(pend(sync)[x], old(sync[x]))
  candidate forall x: Str {pend(sync)[x]} {x in pre($L, $I)} :: !(x in pre($L, $I)) ==> pend(sync)[x] == old(sync[x])
  ensures wf: wfQueue(sync)
  ensures all: ok(err) ==> requeued(old(sync), sync)
  ensures kept: !ok(err) ==> sync == old(sync)
  always [C14] stored: sync == old(sync) || requeued(old(sync), sync)
}

contract "jobs.(*JobStore).setup"(s)(err) {
  requires wfQueue(async) && wfQueue(sync)
  modifies async, sync
  ensures wf: wfQueue(async) && wfQueue(sync)
  ensures all: ok(err) ==> requeued(old(async), async) && requeued(old(sync), sync)
  always [C14] stored: (async == old(async) || requeued(old(async), async)) && (sync == old(sync) || requeued(old(sync), sync))
}
contract "jobs.(*JobStore).ResetCompleted"(s)(err) {
  guarded done by s.modMut
  guarded donePos by s.modMut
  requires [C15] RINGS
  modifies done, donePos
  candidate forall x: Str {pend(done)[x]} {x in pre($L, $I)} :: x in pre($L, $I) ==> !some(pend(done)[x])
  candidate forall x: Str {pend(done)[x]} {x in pre($L, $I)} :: !(x in pre($L, $I)) ==> pend(done)[x] == old(done[x])
  ensures emptied: ok(err) ==> (forall k: Str {done[k]} :: !some(done[k])) && !some(donePos[POS])
  ensures kept: !ok(err) ==> done == old(done) && donePos == old(donePos)
  ensures [C15] rings: RINGS
  always [C15] rings: RINGS
}
contract "jobs.(*JobStore).ResetFailed"(s)(err) {
  guarded failed by s.modMut
  guarded failedPos by s.modMut
  requires [C15] RINGS
  modifies failed, failedPos
  candidate forall x: Str {pend(failed)[x]} {x in pre($L, $I)} :: x in pre($L, $I) ==> !some(pend(failed)[x])
  candidate forall x: Str {pend(failed)[x]} {x in pre($L, $I)} :: !(x in pre($L, $I)) ==> pend(failed)[x] == old(failed[x])
  ensures emptied: ok(err) ==> (forall k: Str {failed[k]} :: !some(failed[k])) && !some(failedPos[POS])
  ensures kept: !ok(err) ==> failed == old(failed) && failedPos == old(failedPos)
  ensures [C15] rings: RINGS
  always [C15] rings: RINGS
}

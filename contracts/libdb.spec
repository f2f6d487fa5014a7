// The store itself (src/libdb): verified against a model of goleveldb's key space.
// The other properties use the buckets this gives (gover/intr.go).

ghost [C17] raw: map[Str]opt Str                              // the key space
ghost [C17] batches: map[leveldb.Batch]map[Str]opt opt Str    // what each batch will do to a key
ghost [C17] iterK: []Str
ghost [C17] iterPos: Int
ghost [C17] iterRaw: map[Str]opt Str
ghost [C17] iterErr: Err
ghost [C17] visitK: []Str        // what an enumeration called its function with
ghost [C17] visitV: []Str
ghost [C17] visitPos: map[Str]opt Int
ghost [C17] visitErr: Err

func gobof(Any) Str
func rangeof(Str) util.Range
func inrange(Str, util.Range) Bool
func bytesnil(Str) Bool
axiom [C17] nil_bytes: forall s: Str {bytesnil(s)} :: bytesnil(s) ==> s == ""
axiom [C17] in_range: forall k: Str, p: Str {inrange(k, rangeof(p))} :: inrange(k, rangeof(p)) == hasprefix(k, p)
axiom [C17] cat_assoc: true   // (a ++ b) ++ d == a ++ (b ++ d)
axiom [C17] cat_empty: forall a: Str, b: Str {a ++ b} :: (b == "" ==> a ++ b == a) && (a == "" ==> a ++ b == b)
axiom [C17] cat_some: forall a: Str, b: Str {a ++ b} :: a ++ b == "" ==> a == "" && b == ""
axiom [C17] cat_cancel: forall a: Str, b: Str, d: Str {a ++ b, a ++ d} :: a ++ b == a ++ d ==> b == d
axiom [C17] cat_prefix: forall a: Str, b: Str {a ++ b} :: hasprefix(a ++ b, a) && substr(a ++ b, len(a), len(a ++ b)) == b
axiom [C17] cat_prefix2: forall a: Str, b: Str, d: Str {hasprefix(a ++ (b ++ d), a ++ b)} :: hasprefix(a ++ (b ++ d), a ++ b)
axiom [C17] prefix_cat: forall a: Str, b: Str {hasprefix(a, b)} :: hasprefix(a, b) ==> a == b ++ substr(a, len(b), len(a))
axiom [C17] cat_order: forall a: Str, b: Str, d: Str {a ++ b <= a ++ d} :: (a ++ b <= a ++ d) == (b <= d)

// a handle looks at the keys that start with its prefix and a dash
def wfh(l: Int) = l.keyPrefix == l.prefix ++ "-" && val(l.prefixBytes) == rangeof(l.keyPrefix) && l.prefixBytes != nil && l.db != nil && l.prefix != ""
def key(l: Int, id: Str) = l.prefix ++ "-" ++ id
def reserved(id: Str) = hasprefix(id, "|bucket|") || hasprefix(id, "|rootBucket|-")
def sameHandle(a: Int, b: Int) = a.prefix == b.prefix && a.keyPrefix == b.keyPrefix && a.prefixBytes == b.prefixBytes && a.db == b.db

contract "libdb.newLevelDBHandle"(path)(r, err) {
  only [C17]
  ensures root: ok(err) ==> r.levelDbHandle.prefix == "|rootBucket|" && r.levelDbHandle.keyPrefix == "|rootBucket|-" && r.levelDbHandle.batch == nil
    && r.levelDbHandle.prefixBytes != nil && val(r.levelDbHandle.prefixBytes) == rangeof("|rootBucket|-") && r.levelDbHandle.db != nil
}
contract "libdb.(*levelDbHandle).Bucket"(l, id)(r) {
  only [C17]
  requires wfh(l)
  ensures path: r.prefix == "|bucket|-" ++ l.prefix ++ "-" ++ id
  ensures handle: wfh(r)
  ensures same: r.db == l.db && r.batch == l.batch
}
contract "libdb.(*levelDbHandle).PutObject"(l, id, obj)(err) {
  only [C17]
  requires wfh(l)
  modifies raw, batches
  ensures reserved: reserved(id) ==> !ok(err)
  ensures failed: !ok(err) ==> raw == old(raw) && batches == old(batches)
  ensures stored: ok(err) && l.batch == nil ==> raw == store(old(raw), key(l, id), Some(gobof(obj))) && batches == old(batches)
  ensures queued: ok(err) && l.batch != nil ==> raw == old(raw) && batches == store(old(batches), val(l.batch), store(old(batches[val(l.batch)]), key(l, id), Some(Some(gobof(obj)))))
}
contract "libdb.(*levelDbHandle).DeleteObject"(l, id)(err) {
  only [C17]
  requires wfh(l)
  modifies raw, batches
  ensures reserved: reserved(id) ==> !ok(err)
  ensures failed: !ok(err) ==> raw == old(raw) && batches == old(batches)
  ensures deleted: ok(err) && l.batch == nil ==> raw == store(old(raw), key(l, id), None(Str)) && batches == old(batches)
  ensures queued: ok(err) && l.batch != nil ==> raw == old(raw) && batches == store(old(batches), val(l.batch), store(old(batches[val(l.batch)]), key(l, id), Some(None(Str))))
}
contract "libdb.(*levelDbHandle).GetObject"(l, id, out)(err) {
  inline "libdb.(*levelDbHandle).Decode"
  only [C17]
  requires wfh(l)
  ensures found: some(raw[key(l, id)]) ==> calls() == 1 && called(0, "gob.Decode", val(raw[key(l, id)]), out) && err == callerr(0)
  ensures missing: !some(raw[key(l, id)]) ==> !ok(err) && calls() == 0
}
contract "libdb.(*levelDbHandle).HasObject"(l, id)(r, err) {
  only [C17]
  requires wfh(l)
  ensures found: ok(err) && r == some(raw[key(l, id)])
}
contract "libdb.(*levelDbHandle).Decode"(l, input, out)(err) {
  only [C17]
  ensures decoded: calls() == 1 && called(0, "gob.Decode", input, out) && err == callerr(0)
}
contract "libdb.(*levelDbHandle).ForEach"(l, f)(err) {
  only [C17]
  requires wfh(l) && len(visitK) == 0 && len(visitV) == 0 && ok(visitErr) && (forall k: Str {visitPos[k]} :: !some(visitPos[k]))
  modifies raw, batches, iterK, iterPos, iterRaw, iterErr, visitK, visitV, visitPos, visitErr
  candidate ok(visitErr)
  candidate ok(iterErr)
  candidate iterRaw == old(raw)
  candidate -1 <= iterPos && iterPos < len(iterK)
  candidate len(visitK) == iterPos + 1 && len(visitV) == iterPos + 1
  candidate forall i: Int {visitK[i]} {iterK[i]} :: 0 <= i && i <= iterPos ==> iterK[i] == l.keyPrefix ++ visitK[i]
  candidate forall i: Int {visitV[i]} :: 0 <= i && i <= iterPos ==> visitV[i] == val(iterRaw[iterK[i]])
  candidate forall i: Int {visitK[i]} {iterK[i]} :: 0 <= i && i <= iterPos ==> visitPos[visitK[i]] == Some(i)
  ensures live: forall i: Int {visitK[i]} :: 0 <= i && i < len(visitK) ==> some(old(raw)[key(l, visitK[i])]) && visitV[i] == val(old(raw)[key(l, visitK[i])])
  ensures ascending: forall i: Int, j: Int {visitK[i], visitK[j]} :: 0 <= i && i < j && j < len(visitK) ==> visitK[i] <= visitK[j] && visitK[i] != visitK[j]
  ensures all: ok(err) ==> (forall k: Str {old(raw[key(l, k)])} :: some(old(raw[key(l, k)])) ==> some(visitPos[k]) && 0 <= val(visitPos[k]) && val(visitPos[k]) < len(visitK) && visitK[val(visitPos[k])] == k)
  ensures stopped: !ok(visitErr) ==> err == visitErr
}
contract "libdb.(*levelDbHandle).View"(l, f)(err) {
  only [C17]
  requires wfh(l)
  modifies raw, batches
  ensures once: calls() == 1 && calledon(0, "libdb.ReadOnlyFunc", prefix, l.prefix) && err == callerr(0)
  at "libdb.ReadOnlyFunc" handle: sameHandle(callarg(0, 0), l) && callarg(0, 0).batch == l.batch
}
// what a write of the batch b makes of the key space
def applied(b: map[Str]opt opt Str, now: map[Str]opt Str, was: map[Str]opt Str) = forall k: Str {now[k]} {b[k]} {was[k]} :: now[k] == (if some(b[k]) then val(b[k]) else was[k])
def body(l: Int) = batches[val(callarg(0, 0).batch)]
contract "libdb.(*levelDbHandle).Update"(l, f)(err) {
  only [C17]
  requires wfh(l)
  modifies raw, batches
  at "libdb.WriterFunc" handle: sameHandle(callarg(0, 0), l) && callarg(0, 0).batch != nil
  at "libdb.WriterFunc" fresh: raw == old(raw) && (forall k: Str {body(l)[k]} :: !some(body(l)[k]))
  always atomic: raw == old(raw) || (calls() == 1 && ok(callerr(0)) && applied(body(l), raw, old(raw)))
  ensures once: calls() == 1
  ensures reported: !ok(callerr(0)) ==> err == callerr(0)
  ensures none: !ok(err) ==> raw == old(raw)
  ensures every: ok(err) ==> ok(callerr(0)) && applied(body(l), raw, old(raw))
}
// for a bucket that is filled through its sequence keys only
contract "libdb.(*levelDbHandle).NextSequence"(l)(r) {
  only [C17]
  requires wfh(l) && (forall k: Str {raw[key(l, k)]} :: some(raw[key(l, k)]) ==> iskey8(k))
  modifies iterK, iterPos, iterRaw, iterErr
  ensures key: len(r) == 8
  ensures greater: forall k: Str {raw[key(l, k)]} :: some(raw[key(l, k)]) ==> k <= r && k != r
}

// Where the keys of buckets lie. Bucket names are assumed to hold no dash: with one, the
// keys of different buckets do clash (known-findings.txt).
func bpre([]Str, Int) Str             // the prefix of the bucket the first n names lead to
func heads(Int, Str) Str
func mid([]Str, Int, Int, Str) Str
func nodash(Str) Bool
axiom [C17] pre_def: forall p: []Str, n: Int {bpre(p, n)} :: bpre(p, n) == (if n <= 0 then "|rootBucket|" else "|bucket|-" ++ bpre(p, n - 1) ++ "-" ++ p[n - 1])
axiom [C17] heads_def: forall n: Int, s: Str {heads(n, s)} :: heads(n, s) == (if n <= 0 then s else "|bucket|-" ++ heads(n - 1, s))
axiom [C17] mid_def: forall p: []Str, i: Int, n: Int, y: Str {mid(p, i, n, y)} :: mid(p, i, n, y) == (if i >= n then y else "-" ++ p[i] ++ mid(p, i + 1, n, y))
// the text before the first dash
axiom [C17] dash_split: forall a: Str, b: Str, x: Str, y: Str {a ++ "-" ++ x, b ++ "-" ++ y} :: nodash(a) && nodash(b) && a ++ "-" ++ x == b ++ "-" ++ y ==> a == b && x == y
axiom [C17] marks: forall x: Str, y: Str {"|rootBucket|" ++ x, "|bucket|-" ++ y} :: "|rootBucket|" ++ x != "|bucket|-" ++ y
def plain(p: []Str) = forall i: Int {p[i]} :: 0 <= i && i < len(p) ==> nodash(p[i])
def skey(p: []Str, k: Str) = bpre(p, len(p)) ++ "-" ++ k

contract "libdb.verifMid"(p, i, n, y)(r) {
  only [C17]
  requires 0 <= i && n <= len(p)
  ensures r == mid(p, i, n, y)
}
contract "libdb.verifLast"(p, i, n, y)() {
  only [C17]
  requires 0 <= i && i < n && n <= len(p)
  ensures last: mid(p, i, n - 1, "-" ++ p[n - 1] ++ y) == mid(p, i, n, y)
}
contract "libdb.verifShape"(p, n, y)() {
  only [C17]
  requires 0 <= n && n <= len(p)
  ensures shape: bpre(p, n) ++ y == heads(n, "|rootBucket|" ++ mid(p, 0, n, y))
}
contract "libdb.verifHeads"(n, m, x, y)() {
  only [C17]
  requires 0 <= n && 0 <= m && heads(n, "|rootBucket|" ++ x) == heads(m, "|rootBucket|" ++ y)
  ensures depth: n == m && x == y
}
contract "libdb.verifSplit"(p, q, i, n, k, j)() {
  only [C17]
  requires 0 <= i && i <= n && n <= len(p) && n <= len(q) && plain(p) && plain(q) && mid(p, i, n, "-" ++ k) == mid(q, i, n, "-" ++ j)
  ensures names: forall x: Int {p[x]} {q[x]} :: i <= x && x < n ==> p[x] == q[x]
  ensures key: k == j
}
contract "libdb.verifKeys"(p, q, k, j)() {
  only [C17]
  requires plain(p) && plain(q) && skey(p, k) == skey(q, j)
  ensures bucket: len(p) == len(q) && (forall x: Int {p[x]} {q[x]} :: 0 <= x && x < len(p) ==> p[x] == q[x])
  ensures key: k == j
}
contract "libdb.verifEnum"(p, q, j, rest)() {
  only [C17]
  requires plain(p) && plain(q) && skey(q, j) == bpre(p, len(p)) ++ "-" ++ rest
  ensures bucket: len(p) == len(q) && (forall x: Int {p[x]} {q[x]} :: 0 <= x && x < len(p) ==> p[x] == q[x])
  ensures key: rest == j
}
contract "libdb.verifHandle"(l, p, n)(r) {
  only [C17]
  inline "libdb.(*levelDbHandle).Bucket"
  requires wfh(l) && 0 <= n && n < len(p) && l.prefix == bpre(p, n)
  ensures path: r.prefix == bpre(p, n + 1) && wfh(r)
}

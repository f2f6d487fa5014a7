// The escaping writer of the index (src/ferryd/core/escape.go). []byte is a byte string.

ghost sunk: Str   // what reached the underlying writer

func fullrune(Str) Bool
func runeof(Str) Int
func runelen(Str) Int
func utf8enc(Int) Str
func unicodein(Int, Str) Bool
func fmt_X_Int(Int) Str

axiom [C18] rune_len: forall b: Str {runelen(b)} :: len(b) > 0 ==> 1 <= runelen(b) && runelen(b) <= len(b)
axiom [C18] rune_empty: !fullrune("")
axiom [C18] full_cat: forall a: Str, b: Str {a ++ b, fullrune(a)} :: fullrune(a) ==> fullrune(a ++ b) && runeof(a ++ b) == runeof(a) && runelen(a ++ b) == runelen(a)
axiom [C18] sub_cat: forall a: Str, b: Str, n: Int, m: Int {substr(a ++ b, n, m), substr(a, n, len(a))} :: 0 <= n && n <= len(a) && m == len(a ++ b) ==> substr(a ++ b, n, m) == substr(a, n, len(a)) ++ b
axiom [C18] sub_none: forall a: Str, n: Int {substr(a, n, n)} :: substr(a, n, n) == ""
axiom [C18] cat_assoc: true   // (a ++ b) ++ d == a ++ (b ++ d)
axiom [C18] cat_len: forall a: Str, b: Str {a ++ b} :: len(a ++ b) == len(a) + len(b)
axiom [C18] cat_empty: forall a: Str, b: Str {a ++ b} :: (b == "" ==> a ++ b == a) && (a == "" ==> a ++ b == b)
axiom [C18,C20] len_empty: forall a: Str {len(a)} :: len(a) == 0 ==> a == ""

// what a character of the index becomes
def mustesc(r: Int) = r > 127 && (unicodein(r, "Symbol") || unicodein(r, "Other") || unicodein(r, "Space"))
def escrune(r: Int) = if r == 65533 then utf8enc(65533) else if mustesc(r) then "&#x" ++ fmt_X_Int(r) ++ ";" else utf8enc(r)
func esc(Str) Str
func rest(Str) Str
axiom [C18] esc_def: forall s: Str {esc(s), fullrune(s)} :: esc(s) == (if len(s) == 0 || !fullrune(s) then "" else escrune(runeof(s)) ++ esc(substr(s, runelen(s), len(s))))
axiom [C18] rest_def: forall s: Str {rest(s), fullrune(s)} :: rest(s) == (if len(s) == 0 || !fullrune(s) then s else rest(substr(s, runelen(s), len(s))))
axiom [C18] esc_empty: esc("") == "" && rest("") == ""

contract "core.(*EscapedWriter).Write"(e, b)(n, err) {
  modifies sunk, e.pending
  candidate esc(old(e.pending ++ b)) == $T2 ++ esc($T)
  candidate rest(old(e.pending ++ b)) == rest($T)
  ensures emits: ok(err) ==> sunk == old(sunk) ++ esc(old(e.pending ++ b))
  ensures keeps: ok(err) ==> e.pending == rest(old(e.pending ++ b))
  ensures count: ok(err) ==> n == len(b)
}
contract "core.(*EscapedWriter).mustEscape"(e, r)(b) {
  ensures esc: b == mustesc(r)
}
contract "core.verifEscapeCat"(a, b)() {
  candidate esc(a) == $T2 ++ esc($T)
  candidate esc(a ++ b) == $T2 ++ esc($T ++ b)
  candidate rest(a) == rest($T)
  candidate rest(a ++ b) == rest($T ++ b)
  ensures text: esc(a ++ b) == esc(a) ++ esc(rest(a) ++ b)
  ensures kept: rest(a ++ b) == rest(rest(a) ++ b)
}
contract "core.verifTwoWrites"(w, a, b)(err) {
  modifies sunk
  ensures text: ok(err) ==> sunk == old(sunk) ++ esc(a ++ b)
}
contract "core.verifMoreWrites"(e, a, b)(err) {
  modifies sunk, e.pending
  ensures text: ok(err) ==> sunk == old(sunk) ++ esc(old(e.pending) ++ a ++ b)
  ensures kept: ok(err) ==> e.pending == rest(old(e.pending) ++ a ++ b)
}

// Reading package archives (src/libeopkg/package.go).

func zipof(Str) zip.ReadCloser   // the archive at a path
func zipdata(zip.File) Str       // what a member of an archive holds
func zipfind([]opt zip.File, Str, Int) opt zip.File
axiom [C20] zip_files: forall r: zip.ReadCloser, i: Int {r.Reader.File[i]} :: 0 <= i && i < len(r.Reader.File) ==> some(r.Reader.File[i])
axiom [C20] zipfind_def: forall S: []opt zip.File, n: Str, i: Int {zipfind(S, n, i)} :: zipfind(S, n, i) ==
  (if i < 0 || i >= len(S) then None(zip.File) else (if S[i].Name == n then S[i] else zipfind(S, n, i + 1)))

contract "libeopkg.(*Package).FindFile"(p, path)(f) {
  only [C20]
  requires p.zipFile != nil
  candidate zipfind($L, path, 0) == zipfind($L, path, $I)
  ensures found: f == zipfind(p.zipFile.Reader.File, path, 0)
}
// the archive behind p is the one at its path
def archive(p: Int) = p.zipFile != nil && val(p.zipFile) == zipof(p.Path)
def doc(p: Str, n: Str) = zipdata(val(zipfind(zipof(p).Reader.File, n, 0)))
def metaOf(p: Str) = xmldec(libeopkg.Metadata, doc(p, "metadata.xml")).Package
axiom [C20] up_name: forall p: Str {upName(p)} :: upName(p) == metaOf(p).Name
axiom [C20] up_rel: forall p: Str {upRel(p)} :: upRel(p) == metaOf(p).History[0].Release
// a single path component
axiom [C20] clean_def: forall s: Str {clean(s)} :: clean(s) == (pathbase(s) == s && s != "." && s != ".." && s != "/" && s != "")
def langs(S: []libeopkg.LocalisedField) = forall i: Int {S[i]} :: 0 <= i && i < len(S) ==> S[i].Lang != ""
// what an accepted package has
def accepted(m: opt libeopkg.Metadata) = m.Package.Name != "" && len(m.Package.History) >= 1 && clean(m.Package.Source.Name)
  && langs(m.Package.Summary) && langs(m.Package.Description)

contract "libeopkg.FixMissingLocalLanguage"(fields)() {
  only [C20]
  modifies fields
  candidate forall i: Int {$S[i]} :: 0 <= i && i < $I ==> $S[i].Lang != ""
  candidate len($S) == len(lold($S))
  ensures langs: langs(val(fields))
}
contract "libeopkg.(*Package).ReadFiles"(p)(err) {
  only [C20]
  alloc libeopkg.Files
  trusted "reads files.xml: an archive without it, or with a mode that is no number, is an error (bounded replay only)"
  requires archive(p)
  unset p.Files
  modifies p.Files
  ensures ok(err) ==> p.Files != nil
  ensures err != gerr("libeopkg.ErrDeltaPointless")
}
contract "libeopkg.(*File).initFileMode"(f)(err) {
  only [C20]
  modifies f.modePrivate
}
// where the packages of a source lie: l/name, or the first four letters of a library
func lower(Str) Str
axiom [C20] lower_len: forall s: Str {lower(s)} :: s != "" ==> lower(s) != ""
axiom [C20] pcomp_def: forall s: Str {pcomp(s)} :: pcomp(s) == (if hasprefix(lower(s), "lib") && len(lower(s)) > 3 then pathjoin(substr(lower(s), 0, 4), lower(s)) else pathjoin(substr(lower(s), 0, 1), lower(s)))

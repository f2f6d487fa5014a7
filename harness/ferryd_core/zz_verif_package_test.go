package core

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	log "github.com/sirupsen/logrus"

	"github.com/getsolus/ferryd/src/libeopkg"
)

// C20: archives with every kind of incomplete or malformed metadata.

func TestVerifC20(t *testing.T) {
	log.SetOutput(io.Discard)
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	n := 500
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 8000
	}
	kinds := map[string]bool{}
	dir, err := os.MkdirTemp("", "pk")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	base := filepath.Join(dir, "base")
	os.MkdirAll(base, 0755)
	mg, err := NewManager(base)
	if err != nil {
		t.Fatal(err)
	}
	defer mg.Close()
	for _, r := range []string{"alpha", "beta"} {
		if err := mg.CreateRepo(r); err != nil {
			t.Fatal(err)
		}
	}
	acc := 0
	for i := 0; i < n; i++ {
		k, ok := pkcase(t, seed*1000003+int64(i), dir, mg)
		kinds[k] = true
		if ok {
			acc++
		}
		if i < 4 {
			fmt.Printf("VERIF-SAMPLE %s\n", k)
		}
	}
	fmt.Printf("VERIF-EVALS %d %d archives with omitted, empty, repeated, misplaced or malformed metadata, read and included; %d accepted\n", n, len(kinds), acc)
}

func pkpick(r *rand.Rand, good string, odd ...string) string {
	if r.Intn(4) != 0 {
		return good
	}
	return odd[r.Intn(len(odd))]
}

func pkcase(t *testing.T, seed int64, dir string, mg *Manager) (kind string, accepted bool) {
	r := rand.New(rand.NewSource(seed))
	const absent = "\x00"
	el := func(n, v string) string {
		if v == absent {
			return ""
		}
		return "<" + n + ">" + v + "</" + n + ">"
	}
	name := pkpick(r, "nano", "", absent, "x", " ", "a-b", "é", "lib", strings.Repeat("n", 300))
	src := pkpick(r, "nano", "", absent, "x", ".", "..", "/", "../up", "a/b", "/abs", "lib", "libx", "LIBREOFFICE", "É", "é", "l", "li", "lIb", "n/", "../../../alpha/n/nano", " ")
	// any short string will do for a name
	some := func() string {
		var b strings.Builder
		for k := 1 + r.Intn(5); k > 0; k-- {
			b.WriteString([]string{".", "-", "_", "/", " ", "l", "I", "b", "LIB", "é", "a", "0", "\\", "+", "~"}[r.Intn(15)])
		}
		return b.String()
	}
	if r.Intn(6) == 0 {
		src = some()
	}
	if r.Intn(12) == 0 {
		src = strings.Repeat([]string{".", "-", "_", "l"}[r.Intn(4)], 1+r.Intn(4))
	}
	if r.Intn(12) == 0 {
		name = some()
	}
	hist := ""
	updates := pkpick(r, "1", "0", "3", absent)
	rel := pkpick(r, fmt.Sprint(r.Intn(50)), "0", "-1", "x", "", "99999999999999999999")
	if updates != absent {
		k := 0
		fmt.Sscan(updates, &k)
		h := ""
		for i := 0; i < k; i++ {
			h += fmt.Sprintf(`<Update release="%s"><Version>1.0</Version></Update>`, rel)
		}
		hist = el("History", h)
	}
	texts := func(n string) string {
		s := ""
		for i, k := 0, r.Intn(4); i < k; i++ {
			lang := []string{"", "", ` xml:lang="en"`, ` xml:lang="de"`, ` xml:lang=""`, ` lang="fr"`}[r.Intn(6)]
			s += "<" + n + lang + ">" + []string{"text", "", " spaced \n"}[r.Intn(3)] + "</" + n + ">"
		}
		return s
	}
	source := el("Source", el("Name", src)+el("Homepage", "x"))
	if r.Intn(20) == 0 {
		source = ""
	}
	parts := []string{el("Name", name), texts("Summary"), texts("Description"), hist, source, el("PackageURI", pkpick(r, absent, "a/b.eopkg", "", "../x")), el("Architecture", "x86_64")}
	if r.Intn(10) == 0 {
		parts = append(parts, el("DeltaPackages", `<Delta releaseFrom="1"><PackageURI>x</PackageURI></Delta>`))
	}
	if r.Intn(10) == 0 {
		parts = append(parts, parts[r.Intn(len(parts))])
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	pkg := el("Package", strings.Join(parts, ""))
	if r.Intn(20) == 0 {
		pkg = ""
	}
	doc := "<PISI>" + el("Source", el("Name", src)) + pkg + "</PISI>"
	shape := "whole"
	switch r.Intn(25) {
	case 0:
		doc, shape = doc[:r.Intn(len(doc))], "cut"
	case 1:
		doc, shape = "", "empty"
	case 2:
		doc, shape = "no xml at all", "text"
	case 3:
		doc, shape = "<PISI/>", "bare"
	case 4:
		doc, shape = doc+doc, "twice"
	}
	files := "<Files><File><Path>usr/x</Path><Hash>00</Hash>" + el("Mode", pkpick(r, "0644", "", absent, "x", "9", "-1")) + "</File></Files>"
	if r.Intn(15) == 0 {
		files = []string{"", "<Files/>", "<Files><File/></Files>", files[:r.Intn(len(files))]}[r.Intn(4)]
	}
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	put := func(n, v string) {
		w, err := z.Create(n)
		if err != nil {
			t.Fatal(err)
		}
		io.WriteString(w, v)
	}
	members := ""
	if r.Intn(15) != 0 {
		put("metadata.xml", doc)
		members += "metadata "
	}
	if r.Intn(15) != 0 {
		put("files.xml", files)
		members += "files "
	}
	z.Close()
	data := buf.Bytes()
	if r.Intn(20) == 0 {
		data = data[:r.Intn(len(data))]
		members += "truncated"
	}
	path := filepath.Join(dir, fmt.Sprintf("p%d.eopkg", seed))
	if err := os.WriteFile(path, data, 0644); err != nil {
		t.Fatal(err)
	}
	defer os.Remove(path)
	kind = fmt.Sprintf("%s document, members %s: name %q source %q updates %q release %q", shape, members, name, src, updates, rel)
	fail := func(f string, a ...interface{}) {
		fmt.Printf("VERIF-FAIL property C20: %s\n", fmt.Sprintf(f, a...))
		fmt.Println("    seed", seed, kind)
		fmt.Println("    metadata.xml:", doc)
		fmt.Println("    files.xml:", files)
		os.RemoveAll(dir)
		t.FailNow()
	}
	step := "reading"
	defer func() {
		if e := recover(); e != nil {
			fail("%s the archive crashed: %v", step, e)
		}
	}()
	p, err := libeopkg.Open(path)
	if err == nil {
		err = p.ReadMetadata()
		if err == nil {
			m := &p.Meta.Package
			if m.Name == "" || m.Source.Name == "" || len(m.History) == 0 {
				fail("accepted with name %q, source name %q and %d history entries", m.Name, m.Source.Name, len(m.History))
			}
			if strings.Contains(m.Source.Name, "/") || m.Source.Name == "." || m.Source.Name == ".." {
				fail("accepted with the source name %q, which is no single path component", m.Source.Name)
			}
			for _, f := range append(append([]libeopkg.LocalisedField{}, m.Summary...), m.Description...) {
				if f.Lang == "" {
					fail("accepted with a text without a language: %q", f.Value)
				}
			}
			accepted = true
		}
		plain := shape == "whole" && strings.HasPrefix(members, "metadata") && !strings.HasSuffix(members, "truncated") && pkg != "" && source != "" && name == "nano" && src == "nano" && updates == "1" && len(rel) < 3 && rel != "x" && rel != ""
		if plain && !accepted {
			fail("rejected, though nothing is missing: %v", err)
		}
		step = "reading all of"
		if accepted {
			p.ReadFiles()
		}
		p.Close()
		if q, err := libeopkg.Open(path); err == nil {
			q.ReadAll()
			q.Close()
		}
	}
	step = "including"
	out := pkoutside(dir)
	err = mg.AddPackages("beta", []string{path}, false)
	if (err == nil) != accepted && len(name) < 200 {
		fail("read without error: %v, but including it gives %v", accepted, err)
	}
	if s := pkoutside(dir); s != out {
		fail("including it in beta changed files outside of beta and the pool: %s", pkdiff(out, s))
	}
	step = "indexing a repository with"
	if err == nil {
		if err := mg.Index("beta"); err != nil {
			fail("the repository that includes it cannot be indexed: %v", err)
		}
		if err := mg.RemoveSource("beta", strings.TrimSpace(src), -1); src == "nano" && err != nil {
			fail("it cannot be removed again: %v", err)
		}
	}
	return kind, accepted
}

// pkoutside lists what lies in the directory besides the pool, the database, the assets and beta.
func pkoutside(dir string) string {
	var s []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		for _, d := range []string{"base/pool", "base/repo/beta", "base/" + DatabasePathComponent} {
			if rel == d {
				return filepath.SkipDir
			}
		}
		s = append(s, rel)
		return nil
	})
	return strings.Join(s, "\n")
}

func pkdiff(a, b string) string {
	for _, l := range strings.Split(b, "\n") {
		if !strings.Contains("\n"+a+"\n", "\n"+l+"\n") {
			return l + " appeared"
		}
	}
	for _, l := range strings.Split(a, "\n") {
		if !strings.Contains("\n"+b+"\n", "\n"+l+"\n") {
			return l + " is gone"
		}
	}
	return "order"
}

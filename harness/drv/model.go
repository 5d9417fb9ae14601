package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// File is one tree entry of an abstract history.
type File struct {
	Mode string // 100644, 100755, 120000, 160000
	Data []byte // for 160000 the commit hash
}

// Commit of an abstract history. Parents are indexes into Repo.Commits, always smaller than its own.
type Commit struct {
	Parents []int
	Tree    map[string]File
	Msg     string
	AName   string
	AEmail  string
	CName   string
	CEmail  string
	ATime   int64
	CTime   int64
	ATz     string
	CTz     string

	// Broken is the kind of malformed person lines, used when the commit has no children. NoDate is set when these have no valid date of the author.
	Broken int
	NoDate bool

	// Signed commits have a signature, if they have no children.
	Signed bool
}

// Repo is an abstract history, from which a real git repository is built.
type Repo struct {
	Commits []*Commit
	Refs    map[string]int // full ref name -> commit
	Head    string         // full ref name HEAD points to

	Shas []string // filled by Build
	Dir  string
}

func must(err error) {
	if err != nil {
		panic(harnessErr{err})
	}
}

// harnessErr marks failures of the harness itself, these are never reported as violations.
type harnessErr struct{ err error }

func (e harnessErr) Error() string { return "HARNESS: " + e.err.Error() }

var gitEnv []string

func initGitEnv() {
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GIT_") {
			continue
		}
		gitEnv = append(gitEnv, kv)
	}
	gitEnv = append(gitEnv, "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_NOSYSTEM=1", "GIT_ATTR_NOSYSTEM=1", "LC_ALL=C", "TZ=UTC")
}

func git(dir string, stdin []byte, args ...string) []byte {
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Env = gitEnv
	if stdin != nil {
		c.Stdin = bytes.NewReader(stdin)
	}
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	if err := c.Run(); err != nil {
		panic(harnessErr{fmt.Errorf("git %v: %v: %s", args, err, errb.String())})
	}
	return out.Bytes()
}

func gitMayFail(dir string, args ...string) ([]byte, error) {
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Env = gitEnv
	return c.Output()
}

// initRepoDir creates an empty git repository without running git init.
func initRepoDir(dir string, bare bool) {
	g := filepath.Join(dir, ".git")
	if bare {
		g = dir
	}
	must(os.MkdirAll(filepath.Join(g, "objects", "info"), 0777))
	must(os.MkdirAll(filepath.Join(g, "objects", "pack"), 0777))
	must(os.MkdirAll(filepath.Join(g, "refs", "heads"), 0777))
	must(os.MkdirAll(filepath.Join(g, "refs", "tags"), 0777))
	must(ioutil.WriteFile(filepath.Join(g, "HEAD"), []byte("ref: refs/heads/master\n"), 0666))
	b := "false"
	if bare {
		b = "true"
	}
	must(ioutil.WriteFile(filepath.Join(g, "config"), []byte("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = "+b+"\n[gc]\n\tauto = 0\n"), 0666))
}

func quotePath(p string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(p); i++ {
		c := p[i]
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c < 32 || c > 126:
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func sameFile(a, b File) bool { return a.Mode == b.Mode && bytes.Equal(a.Data, b.Data) }

func sortedPaths(t map[string]File) []string {
	var res []string
	for p := range t {
		res = append(res, p)
	}
	sort.Strings(res)
	return res
}

func sortedKeys(m map[string]int) []string {
	var res []string
	for p := range m {
		res = append(res, p)
	}
	sort.Strings(res)
	return res
}

// ident formats a person line, fast-import does not accept some characters.
func ident(name, email string, t int64, tz string) string {
	if name == "" {
		return fmt.Sprintf("<%s> %d %s", email, t, tz)
	}
	return fmt.Sprintf("%s <%s> %d %s", name, email, t, tz)
}

// Build creates the git repository in dir. Refs and HEAD are set.
func (r *Repo) Build(dir string) {
	initRepoDir(dir, strings.HasSuffix(dir, ".git"))
	r.Dir = dir
	r.Import(0)
	r.SetRefs(r.Refs, r.Head)
}

// Import adds the commits starting with index from.
func (r *Repo) Import(from int) {
	var b bytes.Buffer
	tmp := "refs/verif/tmp"
	ref := func(i int) string {
		if i < from {
			return r.Shas[i]
		}
		return fmt.Sprintf(":%d", i+1)
	}
	for i := from; i < len(r.Commits); i++ {
		c := r.Commits[i]
		if len(c.Parents) == 0 {
			fmt.Fprintf(&b, "reset %s\n\n", tmp)
		}
		fmt.Fprintf(&b, "commit %s\nmark :%d\n", tmp, i+1)
		fmt.Fprintf(&b, "author %s\n", ident(c.AName, c.AEmail, c.ATime, c.ATz))
		fmt.Fprintf(&b, "committer %s\n", ident(c.CName, c.CEmail, c.CTime, c.CTz))
		fmt.Fprintf(&b, "data %d\n%s\n", len(c.Msg), c.Msg)
		base := map[string]File{}
		for j, p := range c.Parents {
			if j == 0 {
				fmt.Fprintf(&b, "from %s\n", ref(p))
				base = r.Commits[p].Tree
			} else {
				fmt.Fprintf(&b, "merge %s\n", ref(p))
			}
		}
		for _, p := range sortedPaths(base) {
			if _, ok := c.Tree[p]; !ok {
				fmt.Fprintf(&b, "D %s\n", quotePath(p))
			}
		}
		for _, p := range sortedPaths(c.Tree) {
			f := c.Tree[p]
			if of, ok := base[p]; ok && sameFile(of, f) {
				continue
			}
			if f.Mode == "160000" {
				fmt.Fprintf(&b, "M 160000 %s %s\n", f.Data, quotePath(p))
				continue
			}
			fmt.Fprintf(&b, "M %s inline %s\ndata %d\n", f.Mode, quotePath(p), len(f.Data))
			b.Write(f.Data)
			b.WriteByte('\n')
		}
		b.WriteByte('\n')
	}
	fmt.Fprintf(&b, "reset %s\nfrom 0000000000000000000000000000000000000000\n\n", tmp)
	marks := r.Dir + ".marks"
	git(r.Dir, b.Bytes(), "-c", "fastimport.unpackLimit=0", "fast-import", "--quiet", "--force", "--date-format=raw-permissive", "--export-marks="+marks)
	data, err := ioutil.ReadFile(marks)
	must(err)
	must(os.Remove(marks))
	for len(r.Shas) < len(r.Commits) {
		r.Shas = append(r.Shas, "")
	}
	for _, l := range strings.Split(strings.TrimSpace(string(data)), "\n") {
		var n int
		var sha string
		_, err := fmt.Sscanf(l, ":%d %s", &n, &sha)
		must(err)
		r.Shas[n-1] = sha
	}
	used := map[int]bool{}
	for _, c := range r.Commits {
		for _, p := range c.Parents {
			used[p] = true
		}
	}
	for i := from; i < len(r.Commits); i++ {
		if r.Commits[i].Broken != 0 && !used[i] {
			r.malform(i)
		}
		if r.Commits[i].Signed && !used[i] {
			r.sign(i)
		}
	}
}

// sign adds a signature to the commit, which is not a valid one.
func (r *Repo) sign(i int) {
	c := string(git(r.Dir, nil, "cat-file", "commit", r.Shas[i]))
	k := strings.Index(c, "\n\n")
	if k < 0 {
		return
	}
	c = c[:k] + "\ngpgsig -----BEGIN PGP SIGNATURE-----\n \n iQEzBAABCAAdFiEE\n =abcd\n -----END PGP SIGNATURE-----" + c[k:]
	r.Shas[i] = strings.TrimSpace(string(git(r.Dir, []byte(c), "hash-object", "-w", "-t", "commit", "--literally", "--stdin")))
}

// malform replaces the commit with one made by a broken tool. The fields of the commit are set to what git reads from it.
func (r *Repo) malform(i int) {
	c := r.Commits[i]
	person := func(name, email *string, t int64, kind int) (string, bool) {
		n, e := *name, *email
		none := func() { *name, *email = "", "" }
		switch kind {
		case 0:
			return fmt.Sprintf("%s <%s>", n, e), false
		case 1:
			none()
			return n, false
		case 2:
			return fmt.Sprintf("%s <%s> junk +0000", n, e), false
		case 3:
			return fmt.Sprintf("%s <%s> -5 +0000", n, e), false
		case 4:
			none()
			return fmt.Sprintf("%s <%s %d +0000", n, e, t), false
		case 5:
			return fmt.Sprintf("%s <%s> %d", n, e, t), false
		case 6:
			none()
			return "", false
		}
		return fmt.Sprintf("%s <%s> %d +00:00", n, e, t), true
	}
	lines := strings.Split(string(git(r.Dir, nil, "cat-file", "commit", r.Shas[i])), "\n")
	for k, l := range lines {
		if l == "" {
			break
		}
		if strings.HasPrefix(l, "author ") && c.Broken&8 != 0 {
			p, date := person(&c.AName, &c.AEmail, c.ATime, c.Broken%8)
			lines[k] = "author " + p
			c.NoDate, c.ATz = !date, "+0000"
		}
		if strings.HasPrefix(l, "committer ") && c.Broken&16 != 0 {
			p, _ := person(&c.CName, &c.CEmail, c.CTime, c.Broken%8)
			lines[k] = "committer " + p
		}
	}
	r.Shas[i] = strings.TrimSpace(string(git(r.Dir, []byte(strings.Join(lines, "\n")), "hash-object", "-w", "-t", "commit", "--literally", "--stdin")))
}

func gitDirOf(dir string) string {
	if strings.HasSuffix(dir, ".git") {
		return dir
	}
	return filepath.Join(dir, ".git")
}

// SetRefs replaces all branches, remotes and tags, and HEAD.
func (r *Repo) SetRefs(refs map[string]int, head string) {
	var b bytes.Buffer
	old := git(r.Dir, nil, "for-each-ref", "--format=%(refname)")
	for _, l := range strings.Split(strings.TrimRight(string(old), "\n"), "\n") {
		if l != "" {
			if _, ok := refs[l]; !ok {
				fmt.Fprintf(&b, "option no-deref\ndelete %s\n", l)
			}
		}
	}
	if b.Len() != 0 {
		// separately, the name of a new ref could be under the name of an old one
		git(r.Dir, b.Bytes(), "update-ref", "--stdin")
		b.Reset()
	}
	for _, name := range sortedKeys(refs) {
		if name != "HEAD" {
			fmt.Fprintf(&b, "update %s %s\n", name, r.Shas[refs[name]])
		}
	}
	git(r.Dir, b.Bytes(), "update-ref", "--stdin")
	target := "ref: " + head
	if head == "HEAD" {
		// detached
		target = r.Shas[refs[head]]
	}
	must(ioutil.WriteFile(filepath.Join(gitDirOf(r.Dir), "HEAD"), []byte(target+"\n"), 0666))
}

// reach returns all commits reachable from the passed ones.
func (r *Repo) reach(heads ...int) map[int]bool {
	res := map[int]bool{}
	var st []int
	st = append(st, heads...)
	for len(st) > 0 {
		c := st[len(st)-1]
		st = st[:len(st)-1]
		if res[c] {
			continue
		}
		res[c] = true
		st = append(st, r.Commits[c].Parents...)
	}
	return res
}

// SetAllTips makes a branch for each commit without children, HEAD is one of them. Returns commit numbers.
func (r *Repo) SetAllTips() (tips []int) {
	has := map[int]bool{}
	for _, c := range r.Commits {
		for _, p := range c.Parents {
			has[p] = true
		}
	}
	refs := map[string]int{}
	for i := range r.Commits {
		if !has[i] {
			refs[fmt.Sprintf("refs/heads/tip%d", i)] = i
			tips = append(tips, i+1)
		}
	}
	r.SetRefs(refs, fmt.Sprintf("refs/heads/tip%d", tips[0]-1))
	return
}

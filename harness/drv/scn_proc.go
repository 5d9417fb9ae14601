package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
)

func init() {
	kinds["full"] = scnFull
	kinds["resume"] = scnResume
}

type procArg struct {
	Hostile bool   `json:"hostile"`
	Rerun   bool   `json:"rerun"`
	All     int    `json:"all"` // -1 random, 0, 1
	Commits int    `json:"commits"`
	Prof    string `json:"prof"` // "", nomerge, merge, bin, special
	Sub     bool   `json:"sub"`  // repeat the run in another process too
	Big     bool   `json:"big"`  // files that take several writes
	Table   *Table `json:"table"`
}

func (e *Env) arg(v interface{}) {
	if len(e.Spec.Arg) != 0 {
		must(json.Unmarshal(e.Spec.Arg, v))
	}
}

func heads(r *Repo, all bool) (res []int) {
	if !all {
		return []int{r.Refs[r.Head] + 1}
	}
	seen := map[int]bool{}
	for _, n := range sortedKeys(r.Refs) {
		c := r.Refs[n] + 1
		if !seen[c] {
			seen[c] = true
			res = append(res, c)
		}
	}
	sort.Ints(res)
	return
}

func (e *Env) hostile(p *Profile) {
	p.Hostile = []float64{0.3, 0.7, 1}[e.R.Intn(3)]
	p.WeirdMeta = true
	p.Paths = nil
	for i := 0; i < 7; i++ {
		p.Paths = append(p.Paths, weirdPaths[e.R.Intn(len(weirdPaths))])
	}
	if p.MaxLines < 8 {
		p.MaxLines = 8
	}
}

// extreme values of one of the dimensions
func (e *Env) extreme(p *Profile, dim int) {
	r := e.R
	calm := func() {
		p.Bin, p.Special, p.Rename, p.Delete, p.EmptyP, p.RootP, p.Hostile, p.Repeat = 0.05, 0, 0.2, 0.1, 0, 0, 0.02, 0.05
	}
	switch dim {
	case 0: // more lines than fit in 16 bits
		calm()
		p.HugeP, p.HugeMin = 0.7, 50000
		p.Commits = 3 + r.Intn(2)
		p.OpsPerComm = 2
		p.Repeat = 0
	case 1: // long lines
		calm()
		p.LongLineP, p.LongMax = 0.15, 1<<uint(17+r.Intn(5))
		p.Commits = 3 + r.Intn(5)
		p.MaxLines = 20
	case 2: // many files
		p.ManyFiles = 600
		p.Commits = 4 + r.Intn(8)
	case 3: // merges of many parents
		p.MaxPar, p.ParP = 24, 0.93
		p.KeepHeads = 30
		p.MergeP = 0.1
		p.ForkP = 0.9
		p.Commits = 40
	case 4: // hundreds of changes in one file
		calm()
		p.AllOver = 0.8
		p.MaxLines = 3000
		p.Commits = 4 + r.Intn(6)
	case 5: // long paths
		p.Paths = nil
		for i := 0; i < 6; i++ {
			p.Paths = append(p.Paths, strings.Repeat(strings.Repeat("d", 1+r.Intn(200))+"/", 1+r.Intn(8))+strings.Repeat("n", 1+r.Intn(200))+".go")
		}
	case 6: // long messages and names
		p.WeirdMeta = true
		p.LongMsg = 1 << uint(14+r.Intn(7))
		p.Commits = 3 + r.Intn(6)
	case 7: // many commits
		p.Commits = 200
		p.OpsPerComm = 1
		p.MaxLines = 6
		p.BigFileP = 0
	}
}

// confusing are sets of paths, which could be taken for one another or for something that the code puts together from paths.
var confusing = [][]string{
	{"a", "@@@del@@@a", "@@@del@@@@@@del@@@a", "b"},
	{"a", "A", "a ", " a", "a.", "\"a\""},
	{"d/a", "d a", "d\\a", "d:a", "D/a"},
	{"a b", "b a", "a b/a b", "b/a b", "a b/b"},
	{"é", "e\u0301", "\\303\\251", "\303", "\251"},
	{"a", "b", "a => b", "{a => b}", "b => a"},
	{"tab\t", "tab", "tab\\t", "tab ", "tab\n"},
	{"b/a", "a/a", "a/b", "b/b", "a/c/a", "b/c/b"},
	{"dev/null", "x/dev/null", "null", "nil"},
	{"x", "x\r", "x\n", "x\nx", "x\tx"},
}

func (e *Env) names(p *Profile) {
	p.Paths = confusing[e.R.Intn(len(confusing))]
	if p.MergeP < 0.25 && chance(e.R, 0.7) {
		p.MergeP = 0.35
		p.ForkP = 0.4
	}
	p.Delete = 1.5
	p.MaxLines = 8
	p.BigFileP = 0
}

func (e *Env) randomRepo(a procArg) *Repo {
	if a.Table != nil {
		return e.tableRepo(a.Table)
	}
	p := RandomProfile(e.R)
	if a.Hostile {
		e.hostile(&p)
	}
	if a.Commits != 0 {
		p.Commits = a.Commits
	}
	switch a.Prof {
	case "nomerge":
		p.MergeP = 0
	case "merge":
		if p.MergeP < 0.25 {
			p.MergeP = 0.35
		}
		if p.ForkP < 0.25 {
			p.ForkP = 0.4
		}
	case "huge":
		p.HugeP = 0.3
		p.HugeMin = 20000
		p.Commits = 3 + e.R.Intn(4)
		p.OpsPerComm = 2
		p.Repeat = 0
	case "extreme":
		e.extreme(&p, e.Spec.ID%8)
	case "manyfiles":
		e.extreme(&p, 2)
		p.ManyFiles = 1200
	case "names":
		e.names(&p)
	case "source":
		// blocks of code which repeat, git has a choice where to put the changes
		p.Repeat, p.Indent = 0.7, 0.9
		p.Hostile, p.Bin, p.Special = 0, 0.1, 0.1
		p.MaxLines = 40
		if p.Commits < 12 {
			p.Commits = 12
		}
	case "renames":
		// many in the same commit
		p.Rename, p.OpsPerComm = 6, 8
		p.MaxLines = 20
		p.Hostile, p.Repeat, p.Bin, p.Special, p.Delete = 0, 0, 0, 0, 0
	case "flip":
		// text becomes binary and text again
		p.Repeat, p.Indent = 0.7, 0.9
		p.MaxLines = 40
		p.Bin += 3
	case "kinds":
		p.Bin += 1.5
		p.Special++
		p.Rename++
	}
	if a.Big {
		p.NoiseP = 0.5
	}
	r := Generate(e.R, p)
	if k := e.Spec.Kind; (k == "full" || k == "meta" || k == "code") && chance(e.R, 0.35) {
		e.otherRefs(r)
	}
	for _, c := range r.Commits {
		c.Signed = chance(e.R, 0.15)
	}
	e.build(r)
	return r
}

// otherRefs moves heads from branches to refs of other kinds, HEAD may become detached.
func (e *Env) otherRefs(r *Repo) {
	kinds := []string{"refs/tags/t%d", "refs/remotes/origin/r%d", "refs/pull/%d/head", "refs/notes/n%d", "refs/x/%d", "refs/stash/%d", "refs/heads/br%d"}
	for n, name := range sortedKeys(r.Refs) {
		if name == r.Head || chance(e.R, 0.4) {
			continue
		}
		c := r.Refs[name]
		delete(r.Refs, name)
		r.Refs[fmt.Sprintf(kinds[e.R.Intn(len(kinds))], n+1)] = c
	}
	if chance(e.R, 0.15) {
		c := r.Refs[r.Head]
		if chance(e.R, 0.7) {
			// no branch has these commits
			delete(r.Refs, r.Head)
		}
		r.Head = "HEAD"
		r.Refs["HEAD"] = c
	}
}

func (e *Env) build(r *Repo) {
	loc := filepath.Join(e.Dir, "repo")
	bare := chance(e.R, 0.1)
	if e.Spec.Kind == "repeat" && chance(e.R, 0.25) {
		bare = true
	}
	if bare {
		loc += ".git"
	}
	must(os.MkdirAll(loc, 0777))
	if bare && chance(e.R, 0.7) {
		// as made by git init
		for _, d := range []string{"info", "hooks", "logs", "objects/info", "objects/pack"} {
			must(os.MkdirAll(filepath.Join(loc, d), 0777))
		}
		must(ioutil.WriteFile(filepath.Join(loc, "info", "exclude"), []byte("# x\n"), 0666))
		must(ioutil.WriteFile(filepath.Join(loc, "description"), []byte("x\n"), 0666))
	}
	r.Build(loc)
	if !bare && chance(e.R, 0.08) {
		e.shallow(r)
	}
}

// shallow makes it look like a clone of a part of the history: for git, some of the commits have no parents.
func (e *Env) shallow(r *Repo) {
	var b bytes.Buffer
	for i := 0; i < 1+e.R.Intn(2); i++ {
		k := e.R.Intn(len(r.Commits))
		if len(r.Commits[k].Parents) == 0 {
			continue
		}
		r.Commits[k].Parents = nil
		fmt.Fprintln(&b, r.Shas[k])
	}
	must(ioutil.WriteFile(filepath.Join(r.Dir, ".git", "shallow"), b.Bytes(), 0666))
}

func (e *Env) scn(h *Hist) *Scn {
	return &Scn{t: e.T, h: h, dir: e.Dir, exact: newIds()}
}

func (e *Env) ckptDir(name string) string {
	loc := filepath.Join(e.Dir, name)
	must(os.MkdirAll(loc, 0777))
	return loc
}

func scnFull(e *Env) {
	a := procArg{All: -1}
	e.arg(&a)
	r := e.randomRepo(a)
	h := extract(r)
	emitHistory(e.T, h)
	all := a.All == 1 || a.All == -1 && chance(e.R, 0.6)
	s := e.scn(h)
	s.keep = true
	run := Run{Kind: "full", Heads: heads(r, all), All: all, Strict: true, Ckpt: e.ckptDir("ck1"), Rel: chance(e.R, 0.1)}
	if chance(e.R, 0.2) {
		run.Ckpt = r.Dir
	}
	s.run(run)
	if a.Rerun {
		run.Rep = 1
		if chance(e.R, 0.5) {
			run.Ckpt = e.ckptDir("ck2")
		}
		if chance(e.R, 0.5) {
			mark("run_begin")
			g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.Dir, AllBranches: all, Logger: nullLogger{}})
			err := g.Read()
			mark("run_end")
			must(err)
			run.Graph = g
		}
		s.run(run)
	}
	if a.Sub {
		s.runSub(run)
	}
}

func contains(a []int, v int) bool {
	for _, x := range a {
		if x == v {
			return true
		}
	}
	return false
}

// scnResume is a chain of runs sharing a checkpoint directory over a growing history.
func scnResume(e *Env) {
	a := procArg{All: -1}
	e.arg(&a)
	r := e.randomRepo(a)
	h := extract(r)
	emitHistory(e.T, h)
	s := e.scn(h)
	// what a full run delivers for everything that is going to be resumed
	s.run(Run{Kind: "full", Heads: r.SetAllTips(), All: true, Strict: true, Ckpt: e.ckptDir("ckref")})
	ck := e.ckptDir("ck1")
	if chance(e.R, 0.2) {
		ck = r.Dir
	}
	rel := chance(e.R, 0.1)
	// with all branches, some of which are named as wanted in the runs that continue
	all := chance(e.R, 0.25)
	// HEAD moves through a list of commits, most of the time forward
	n := len(r.Commits)
	stages := 2 + e.R.Intn(4)
	var pos []int
	for i := 0; i < stages; i++ {
		pos = append(pos, e.R.Intn(n))
	}
	sort.Ints(pos)
	pos = append(pos, n-1)
	last := 0
	for i, c := range pos {
		if i > 0 && chance(e.R, 0.9) && !r.reach(c)[last-1] {
			// mostly continue the same line
			found := -1
			for k := n - 1; k >= 0; k-- {
				if k != last-1 && r.reach(k)[last-1] && (found == -1 || chance(e.R, 0.5)) {
					found = k
				}
			}
			if found >= 0 {
				c = found
			}
		}
		refs := map[string]int{"refs/heads/master": c}
		var wanted []int
		if all {
			for k := 0; k < e.R.Intn(4); k++ {
				b := e.R.Intn(pos[i] + 1)
				refs[fmt.Sprintf("refs/heads/b%d", k)] = b
				if chance(e.R, 0.7) {
					wanted = append(wanted, b+1)
				}
			}
		}
		r.SetRefs(refs, "refs/heads/master")
		hd := []int{c + 1}
		every := []int{}
		for _, n := range sortedKeys(refs) {
			every = append(every, refs[n]+1)
		}
		if !all {
			every = hd
		}
		if last == 0 || chance(e.R, 0.05) {
			del, err := s.run(Run{Kind: "full", Heads: every, All: all, Strict: true, Ckpt: ck, Cmp: 1, Rel: rel})
			if err == nil && len(del) > 0 {
				last = del[len(del)-1]
			}
			continue
		}
		kind := "incl"
		if chance(e.R, 0.4) {
			kind = "nonincl"
		}
		run := Run{Kind: kind, From: last, Heads: append(hd, wanted...), All: all, Wanted: wanted, Strict: true, Ckpt: ck, Cmp: 1, Rel: rel}
		if chance(e.R, 0.25) {
			// relaxed resume from any commit, as long as the checkpoint has what is needed
			run.Strict = false
			run.From = 1 + e.R.Intn(n)
		}
		if run.Strict && chance(e.R, 0.15) {
			// strict resume with another commit
			run.From = 1 + e.R.Intn(n)
		}
		del, err := s.run(run)
		if err == nil && len(del) > 0 {
			last = del[len(del)-1]
		}
	}
}

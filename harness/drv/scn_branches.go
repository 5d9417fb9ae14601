package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/pinpt/ripsrc/ripsrc"
	"github.com/pinpt/ripsrc/ripsrc/branches2"
	"github.com/pinpt/ripsrc/ripsrc/parentsgraph"
)

func init() {
	kinds["branches"] = scnBranches
	kinds["dags"] = scnDags
	kinds["graph"] = scnGraph
}

var branchNames = []string{
	"a", "b", "dev", "nb\u00a0", "\u00a0", "em\u2003", "nel\u0085", "\u3000x\u2029", "nb", "feature/x", "feature/y/z", "origin/x", "origin/origin", "heads/q", "refs/heads/r", "@@@", "a@@@b", "(x)", "x(y)", "'q'", "\"dq\"", "é", "日本", "x}y", "{0}", "%s", "%(refname)", "$x", "+p", "x+y", "v1.0", "x=y", "a,b", "a;b", "a&b", "<t>", "#1", "!n", "Main", "MAIN", "master2", "masters", "m", "master/sub2", "HEAD2", "FETCH_HEAD", "tags/t", "remotes/origin/z", "x-y", "0123456789012345678901234567890123456789", "\u00a0nb", "x|y", "`cmd`",
}

// dagRepo makes a random history without files.
func dagRepo(r *rand.Rand, n int) *Repo {
	g := &gen{r: r, p: RandomProfile(r), repo: &Repo{Refs: map[string]int{}}}
	g.p.DateMode = []int{0, 1, 2, 3}[r.Intn(4)]
	mergeP := []float64{0.1, 0.25, 0.5}[r.Intn(3)]
	rootP := []float64{0, 0, 0.05, 0.2}[r.Intn(4)]
	forkP := []float64{0.1, 0.3, 0.6}[r.Intn(3)]
	maxPar := []int{2, 2, 3, 4, 9, 40}[r.Intn(6)]
	var heads []int
	for i := 0; i < n; i++ {
		g.addDag(&heads, rootP, mergeP, forkP, maxPar)
	}
	return g.repo
}

func (g *gen) addDag(heads *[]int, rootP, mergeP, forkP float64, maxPar int) int {
	r := g.r
	i := len(g.repo.Commits)
	c := &Commit{Tree: map[string]File{}}
	g.meta(c, i)
	c.Msg = fmt.Sprintf("c%d", i)
	switch {
	case i == 0 || chance(r, rootP):
		*heads = append(*heads, i)
	case i > 1 && chance(r, mergeP):
		k := 2
		for k < maxPar && (chance(r, 0.4) || maxPar > 4 && chance(r, 0.7)) {
			k++
		}
		seen := map[int]bool{}
		for try := 0; try < 20+3*k && len(c.Parents) < k; try++ {
			p := r.Intn(i)
			if chance(r, 0.7) {
				p = (*heads)[r.Intn(len(*heads))]
			}
			if !seen[p] {
				seen[p] = true
				c.Parents = append(c.Parents, p)
			}
		}
		if len(c.Parents) == 0 {
			c.Parents = []int{i - 1}
		}
		if chance(r, 0.05) {
			g.sameParent(c)
		}
		if chance(r, 0.5) {
			var nh []int
			for _, h := range *heads {
				if !seen[h] {
					nh = append(nh, h)
				}
			}
			*heads = nh
		}
		*heads = append(*heads, i)
	default:
		k := r.Intn(len(*heads))
		p := (*heads)[k]
		if chance(r, forkP) {
			if chance(r, 0.4) {
				p = r.Intn(i)
			}
			*heads = append(*heads, i)
		} else {
			(*heads)[k] = i
		}
		c.Parents = []int{p}
	}
	g.repo.Commits = append(g.repo.Commits, c)
	return i
}

func numbers(r *Repo) map[string]int {
	res := map[string]int{}
	for i, s := range r.Shas {
		res[s] = i + 1
	}
	return res
}

// emitDag writes the graph of commits and the rank of each commit when sorted by hash.
func emitDag(t *Trace, r *Repo) {
	ps := [][]int{}
	for _, c := range r.Commits {
		a := []int{}
		for _, p := range c.Parents {
			a = append(a, p+1)
		}
		ps = append(ps, a)
	}
	s := append([]string{}, r.Shas...)
	sort.Strings(s)
	rk := map[string]int{}
	for i, x := range s {
		rk[x] = i + 1
	}
	rank := []int{}
	for _, x := range r.Shas {
		rank = append(rank, rk[x])
	}
	t.emit(obj{"e": "dag", "par": ps, "rank": rank})
}

type brRun struct {
	origin, incDefault, only bool
	conc                     int
	prs                      []string
	api                      bool // use the exported API of the main package
	graph                    *parentsgraph.Graph
	slow                     bool
	ctxDone                  bool
}

func safeNum(m map[string]int, sha string) int {
	if sha == "" {
		return 0
	}
	if n, ok := m[sha]; ok {
		return n
	}
	return -1
}

// branchID in a form which can be compared: name and commit it was made of
func (e *Env) decodeID(id string, names []string, r *Repo) []int {
	if id == "" {
		return []int{-1, 0}
	}
	if e.state == nil {
		e.state = map[string]interface{}{}
	}
	for k, n := range names {
		for i := -1; i < len(r.Shas); i++ {
			s := n
			if i >= 0 {
				s += r.Shas[i]
			}
			h := sha256.Sum256([]byte(s))
			if hex.EncodeToString(h[:]) == id {
				return []int{k + 1, i + 1}
			}
		}
	}
	return []int{-2, 0}
}

// runBranches lists branches and writes everything that is delivered.
func (e *Env) runBranches(r *Repo, o brRun) {
	num := numbers(r)
	names := newIds()
	defName := strings.TrimPrefix(r.Head, "refs/heads/")
	names.get(defName)
	type nh struct {
		n string
		c int
	}
	var want []nh
	pre := "refs/heads/"
	if o.origin {
		pre = "refs/remotes/origin/"
	}
	for _, ref := range sortedKeys(r.Refs) {
		if !strings.HasPrefix(ref, pre) {
			continue
		}
		n := strings.TrimPrefix(ref, pre)
		if n == defName || n == "HEAD" {
			continue
		}
		want = append(want, nh{n, r.Refs[ref] + 1})
	}
	var list []string
	list = append(list, defName)
	w := []interface{}{}
	for _, x := range want {
		w = append(w, []int{names.get(x.n), x.c})
		list = append(list, x.n)
	}
	var all []int
	for _, ref := range sortedKeys(r.Refs) {
		all = append(all, r.Refs[ref])
	}
	all = append(all, r.Refs[r.Head])
	inGraph := r.reach(all...)
	if o.graph != nil {
		inGraph = map[int]bool{}
		for sha := range o.graph.Parents {
			inGraph[num[sha]-1] = true
		}
	}
	prs := []int{}
	seen := map[int]bool{}
	for _, p := range o.prs {
		n, ok := num[p]
		if ok && inGraph[n-1] && !seen[n] {
			seen[n] = true
			prs = append(prs, n)
		}
	}
	if o.api {
		o.incDefault = true
		o.only = false
	}
	e.T.emit(obj{"e": "brun", "kind": fmt.Sprintf("w%d", o.conc), "def": r.Refs[r.Head] + 1, "heads": w, "prs": prs, "incdef": o.incDefault, "only": o.only})
	mark("run_begin")
	ch := make(chan branches2.Branch)
	done := make(chan error, 1)
	ctx := context.Background()
	if o.api {
		rs := ripsrc.New(ripsrc.Opts{Logger: nullLogger{}, RepoDir: r.Dir, AllBranches: true, BranchesUseOrigin: o.origin, PullRequestSHAs: o.prs})
		go func() { done <- rs.Branches(ctx, ch) }()
	} else {
		gr := o.graph
		if gr == nil {
			gr = parentsgraph.New(parentsgraph.Opts{RepoDir: r.Dir, AllBranches: true, Logger: nullLogger{}})
			if err := gr.Read(); err != nil {
				mark("run_end")
				e.T.emit(obj{"e": "bend", "err": true, "msg": err.Error(), "closed": true})
				return
			}
		}
		p := branches2.New(branches2.Opts{Logger: nullLogger{}, IncludeDefaultBranch: o.incDefault, Concurrency: o.conc, RepoDir: r.Dir, CommitGraph: gr, UseOrigin: o.origin, PullRequestSHAs: o.prs, PullRequestsOnly: o.only})
		go func() { done <- p.Run(ctx, ch) }()
	}
	var recs []branches2.Branch
	early := false
	var err error
	got := false
loop:
	for {
		select {
		case b, ok := <-ch:
			if !ok {
				break loop
			}
			recs = append(recs, b)
			mark("progress")
			if o.slow {
				time.Sleep(time.Duration(e.R.Intn(3)) * time.Millisecond)
			}
		case err = <-done:
			got = true
			// the channel has to be closed already, or everything is lost
			select {
			case _, ok := <-ch:
				early = ok
			default:
				early = true
			}
			break loop
		}
	}
	if !got {
		err = <-done
	}
	mark("run_end")
	for _, b := range recs {
		nm := 0
		if b.Name != "" {
			nm = names.get(b.Name)
		}
		cs := []int{}
		for _, c := range b.Commits {
			cs = append(cs, safeNum(num, c))
		}
		fr := []int{}
		for _, c := range b.BranchedFromCommits {
			fr = append(fr, safeNum(num, c))
		}
		e.T.emit(obj{"e": "br", "name": nm, "pr": b.IsPullRequest, "head": safeNum(num, b.HeadSHA), "def": b.IsDefault, "merged": b.IsMerged, "mc": safeNum(num, b.MergeCommit),
			"from": fr, "cs": cs, "behind": b.BehindDefaultCount, "ahead": b.AheadDefaultCount, "first": safeNum(num, b.FirstCommit), "id": e.decodeID(b.BranchID, list, r)})
	}
	e.T.emit(obj{"e": "bend", "err": err != nil, "msg": errStr(err), "closed": !early})
}

// emitGraph reads the commit graph and writes it.
func (e *Env) emitGraph(r *Repo, all bool, extra []int) *parentsgraph.Graph {
	num := numbers(r)
	hs := []int{r.Refs[r.Head] + 1}
	if all {
		hs = nil
		for _, n := range sortedKeys(r.Refs) {
			hs = append(hs, r.Refs[n]+1)
		}
		hs = append(hs, extra...)
	}
	mark("run_begin")
	g := parentsgraph.New(parentsgraph.Opts{RepoDir: r.Dir, AllBranches: all, Logger: nullLogger{}})
	err := g.Read()
	mark("run_end")
	e.graphEvent(num, g, hs, err)
	return g
}

func (e *Env) graphEvent(num map[string]int, g *parentsgraph.Graph, hs []int, err error) {
	e.graphEventAs("graph", num, g, hs, err)
}

// graphEventAs emits the graph. For gmap, hs are the commits which the map had.
func (e *Env) graphEventAs(what string, num map[string]int, g *parentsgraph.Graph, hs []int, err error) {
	conv := func(m map[string][]string) []interface{} {
		res := []interface{}{}
		var ks []int
		by := map[int][]string{}
		for k, v := range m {
			n := safeNum(num, k)
			ks = append(ks, n)
			by[n] = v
		}
		sort.Ints(ks)
		for _, k := range ks {
			l := []int{}
			for _, c := range by[k] {
				l = append(l, safeNum(num, c))
			}
			res = append(res, []interface{}{k, l})
		}
		return res
	}
	e.T.emit(obj{"e": what, "heads": hs, "p": conv(g.Parents), "c": conv(g.Children), "err": err != nil, "msg": errStr(err)})
}

func (e *Env) randomRefs(r *Repo) {
	n := len(r.Commits)
	r.Refs = map[string]int{}
	def := "master"
	if chance(e.R, 0.3) {
		def = []string{"main", "trunk", "feature/default", "é", "x(y)", "origin/master", "heads/master", "nb\u00a0", "nb\u2003"}[e.R.Intn(9)]
	}
	r.Head = "refs/heads/" + def
	pick := func() int {
		if chance(e.R, 0.6) && n > 3 {
			return n - 1 - e.R.Intn(n/2+1)
		}
		return e.R.Intn(n)
	}
	r.Refs[r.Head] = pick()
	ok := func(name string) bool {
		for o := range r.Refs {
			if o == name || strings.HasPrefix(o, name+"/") || strings.HasPrefix(name, o+"/") {
				return false
			}
		}
		return true
	}
	for k := 0; k < e.R.Intn(9); k++ {
		nm := "refs/heads/" + branchNames[e.R.Intn(len(branchNames))]
		if ok(nm) {
			r.Refs[nm] = pick()
		}
	}
	for k := 0; k < e.R.Intn(6); k++ {
		nm := "refs/remotes/origin/" + branchNames[e.R.Intn(len(branchNames))]
		if chance(e.R, 0.2) {
			nm = "refs/remotes/origin/" + def
		}
		if ok(nm) {
			r.Refs[nm] = pick()
		}
	}
	for k := 0; k < e.R.Intn(4); k++ {
		nm := []string{"refs/tags/" + def, "refs/tags/v1", "refs/tags/a", "refs/remotes/other/x", "refs/remotes/originx/y", "refs/pull/1/head", "refs/notes/x", "refs/stash", "refs/tags/dev", "refs/headsx/y"}[e.R.Intn(10)]
		if ok(nm) {
			r.Refs[nm] = pick()
		}
	}
}

func scnBranches(e *Env) {
	r := dagRepo(e.R, 3+e.R.Intn(22))
	e.randomRefs(r)
	e.build(r)
	if chance(e.R, 0.3) {
		git(r.Dir, nil, "pack-refs", "--all")
	}
	if chance(e.R, 0.3) {
		if n, ok := r.Refs["refs/remotes/origin/a"]; ok {
			_ = n
			must(os.MkdirAll(filepath.Join(gitDirOf(r.Dir), "refs/remotes/origin"), 0777))
			must(ioutil.WriteFile(filepath.Join(gitDirOf(r.Dir), "refs/remotes/origin/HEAD"), []byte("ref: refs/remotes/origin/a\n"), 0666))
		}
	}
	stages := 1 + e.R.Intn(3)
	old := runtime.GOMAXPROCS(0)
	defer runtime.GOMAXPROCS(old)
	for st := 0; st < stages; st++ {
		if st > 0 {
			// history grows
			from := len(r.Commits)
			g := &gen{r: e.R, p: RandomProfile(e.R), repo: r}
			names := sortedKeys(r.Refs)
			for k := 0; k < 1+e.R.Intn(3); k++ {
				nm := names[e.R.Intn(len(names))]
				if chance(e.R, 0.4) {
					nm = r.Head
				}
				c := &Commit{Tree: map[string]File{}, Parents: []int{r.Refs[nm]}}
				g.meta(c, len(r.Commits))
				c.Msg = fmt.Sprintf("grow%d", len(r.Commits))
				if chance(e.R, 0.3) {
					o := r.Refs[names[e.R.Intn(len(names))]]
					if o != c.Parents[0] {
						c.Parents = append(c.Parents, o)
					}
				}
				r.Commits = append(r.Commits, c)
				r.Refs[nm] = len(r.Commits) - 1
			}
			r.Import(from)
			r.SetRefs(r.Refs, r.Head)
		}
		emitDag(e.T, r)
		runtime.GOMAXPROCS([]int{1, 2, 8, old}[e.R.Intn(4)])
		var gr *parentsgraph.Graph
		for k := 0; k < 2; k++ {
			o := brRun{origin: chance(e.R, 0.35), incDefault: chance(e.R, 0.6), only: chance(e.R, 0.15), slow: chance(e.R, 0.2), api: chance(e.R, 0.25)}
			o.conc = []int{0, 1, 2, 3, 16, 64}[e.R.Intn(6)]
			if gr != nil && chance(e.R, 0.5) {
				o.graph = gr
			}
			for j := 0; j < e.R.Intn(6); j++ {
				switch e.R.Intn(6) {
				case 0:
					o.prs = append(o.prs, fmt.Sprintf("%040x", e.R.Int63()))
				case 1:
					o.prs = append(o.prs, []string{"", "master", r.Shas[0][:10], "HEAD", strings.ToUpper(r.Shas[0])}[e.R.Intn(5)])
				default:
					o.prs = append(o.prs, r.Shas[e.R.Intn(len(r.Shas))])
					if chance(e.R, 0.2) {
						o.prs = append(o.prs, o.prs[0])
					}
				}
			}
			e.runBranches(r, o)
			if gr == nil {
				gr = e.emitGraph(r, true, nil)
			}
		}
	}
}

type dagsArg struct {
	Dags [][][]int `json:"dags"` // parents, starting with 1
}

// scnDags goes through given small graphs, for each of them all choices of the default head, where all commits are requested.
func scnDags(e *Env) {
	var a dagsArg
	e.arg(&a)
	for k, ps := range a.Dags {
		r := &Repo{Refs: map[string]int{}, Head: "refs/heads/master"}
		g := &gen{r: e.R, p: RandomProfile(e.R), repo: r}
		g.p.DateMode = e.R.Intn(4)
		for i, p := range ps {
			c := &Commit{Tree: map[string]File{}}
			g.meta(c, i)
			c.Msg = fmt.Sprintf("%d-%d", e.Spec.ID*1000+k, i)
			for _, x := range p {
				c.Parents = append(c.Parents, x-1)
			}
			r.Commits = append(r.Commits, c)
		}
		for i := range r.Commits {
			r.Refs[fmt.Sprintf("refs/heads/b%d", i)] = i
		}
		r.Refs["refs/heads/master"] = 0
		dir := filepath.Join(e.Dir, fmt.Sprintf("r%d", k))
		r.Build(dir)
		emitDag(e.T, r)
		gr := e.emitGraph(r, true, nil)
		for d := range r.Commits {
			r.Refs["refs/heads/master"] = d
			must(os.MkdirAll(filepath.Join(dir, ".git", "refs/heads"), 0777))
			must(ioutil.WriteFile(filepath.Join(dir, ".git", "refs/heads/master"), []byte(r.Shas[d]+"\n"), 0666))
			o := brRun{graph: gr, incDefault: true, conc: 1 + e.R.Intn(4)}
			if chance(e.R, 0.3) {
				o.only = true
				o.prs = r.Shas
			}
			e.runBranches(r, o)
		}
	}
}

func scnGraph(e *Env) {
	n := 1 + e.R.Intn(30)
	if chance(e.R, 0.05) {
		n = 300
	}
	r := dagRepo(e.R, n)
	e.randomRefs(r)
	e.build(r)
	var extra []int
	if chance(e.R, 0.3) {
		// annotated tags
		git(r.Dir, nil, "-c", "user.name=x", "-c", "user.email=y", "tag", "-a", "-m", "x", "anno", r.Shas[e.R.Intn(n)])
		sha := strings.TrimSpace(string(git(r.Dir, nil, "rev-parse", "anno^{commit}")))
		extra = append(extra, numbers(r)[sha])
	}
	emitDag(e.T, r)
	e.emitGraph(r, false, nil)
	g := e.emitGraph(r, true, extra)
	if chance(e.R, 0.4) {
		// detached head
		c := e.R.Intn(n)
		must(ioutil.WriteFile(filepath.Join(gitDirOf(r.Dir), "HEAD"), []byte(r.Shas[c]+"\n"), 0666))
		head, old := r.Head, r.Refs[r.Head]
		r.Head = "HEAD"
		r.Refs["HEAD"] = c
		e.emitGraph(r, false, nil)
		e.emitGraph(r, true, append(extra, old+1))
		delete(r.Refs, "HEAD")
		r.Head = head
	}
	// built from a map
	num := numbers(r)
	m := map[string][]string{}
	var hs []int
	for k, v := range g.Parents {
		m[k] = v
		hs = append(hs, num[k])
	}
	sort.Ints(hs)
	mark("run_begin")
	g2 := parentsgraph.NewFromMap(m)
	mark("run_end")
	e.graphEvent(num, g2, hs, nil)
	// of a part of the commits
	m = map[string][]string{}
	hs = []int{}
	drop := e.R.Float64()
	for i, sha := range r.Shas {
		v, ok := g.Parents[sha]
		if !ok || chance(e.R, drop) {
			continue
		}
		m[sha] = append([]string{}, v...)
		hs = append(hs, i+1)
	}
	mark("run_begin")
	g3 := parentsgraph.NewFromMap(m)
	mark("run_end")
	e.graphEventAs("gmap", num, g3, hs, nil)
}

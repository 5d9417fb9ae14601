package main

import (
	"fmt"
	"os"
)

func init() {
	kinds["runs"] = scnRuns
}

// sequences of runs over a small graph, each of them with its own checkpoint directory
type runsArg struct {
	G    [][]int       `json:"g"`
	Seqs [][]runOfSpec `json:"seqs"`
}

type runOfSpec struct {
	Kind   string `json:"kind"`
	Head   int    `json:"head"`
	From   int    `json:"from"`
	Strict bool   `json:"strict"`
}

// graphRepo is a repository with the passed graph and random contents.
func (e *Env) graphRepo(parents [][]int, p Profile) *Repo {
	r := e.R
	g := &gen{r: r, p: p, repo: &Repo{Refs: map[string]int{}}}
	for i, ps := range parents {
		c := &Commit{}
		g.meta(c, i)
		var trees []map[string]File
		for _, q := range ps {
			c.Parents = append(c.Parents, q-1)
			trees = append(trees, g.repo.Commits[q-1].Tree)
		}
		switch len(trees) {
		case 0:
			c.Tree = map[string]File{}
			for k := 0; k < r.Intn(4); k++ {
				g.create(c.Tree)
			}
		case 1:
			c.Tree = cloneTree(trees[0])
			if !chance(r, 0.1) {
				g.change(c.Tree)
			}
		default:
			c.Tree = g.mergeTree(trees)
		}
		g.repo.Commits = append(g.repo.Commits, c)
	}
	g.repo.Refs["refs/heads/master"] = len(parents) - 1
	g.repo.Head = "refs/heads/master"
	e.build(g.repo)
	return g.repo
}

func scnRuns(e *Env) {
	var a runsArg
	e.arg(&a)
	p := RandomProfile(e.R)
	p.MaxLines = 8
	r := e.graphRepo(a.G, p)
	h := extract(r)
	emitHistory(e.T, h)
	s := e.scn(h)
	s.short = true
	s.run(Run{Kind: "full", Heads: r.SetAllTips(), All: true, Strict: true, Ckpt: e.ckptDir("ckref")})
	for k, seq := range a.Seqs {
		ck := e.ckptDir(fmt.Sprintf("ck%d", k))
		for _, x := range seq {
			r.SetRefs(map[string]int{"refs/heads/master": x.Head - 1}, "refs/heads/master")
			o := Run{Kind: x.Kind, Heads: []int{x.Head}, Strict: x.Strict, Ckpt: ck, Cmp: 1}
			if x.Kind != "full" {
				o.From = x.From
			}
			s.run(o)
		}
		must(os.RemoveAll(ck))
	}
}

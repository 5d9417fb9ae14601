package main

import (
	"fmt"
)

func init() {
	kinds["long"] = scnLong
}

type longArg struct {
	Commits int  `json:"commits"`
	Resume  bool `json:"resume"`
	// Late histories fork close to the end from commits which the first run has seen, and there are many commits in between.
	Late bool `json:"late"`
}

// longRepo is a history of many small commits: one main line, lines forked from it which stay open for a random time, possibly much more than the number of commits kept in memory, and heads which are never merged.
// With late it returns the commit where the first run ends.
func (e *Env) longRepo(n int, late bool) (*Repo, int) {
	r := e.R
	p := RandomProfile(r)
	p.MaxLines = 4
	p.BigFileP = 0
	p.LongLineP = 0
	p.Special = 0.1
	p.Bin = 0.1
	p.Rename = 0.3
	p.Delete = 0.4
	p.Hostile = 0
	p.Paths = []string{"a.go", "b.go", "c.txt", "dir/d.go", "dir/sub/e.go", "f"}
	p.OpsPerComm = 1
	p.WeirdMeta = false
	p.DateMode = 0
	g := &gen{r: r, p: p, repo: &Repo{Refs: map[string]int{}}}
	add := func(tree map[string]File, parents ...int) int {
		i := len(g.repo.Commits)
		c := &Commit{Parents: parents, Tree: tree}
		g.meta(c, i)
		g.repo.Commits = append(g.repo.Commits, c)
		return i
	}
	small := func(t map[string]File) map[string]File {
		t = cloneTree(t)
		if chance(r, 0.005) {
			// everything is removed
			return map[string]File{}
		}
		if chance(r, 0.97) {
			g.change(t)
		}
		for q, f := range t {
			if len(f.Data) > 120 {
				t[q] = File{Mode: "100644", Data: []byte(fmt.Sprintf("s%d\n", len(g.repo.Commits)))}
			}
		}
		return t
	}
	tree := map[string]File{}
	main := -1
	for k := r.Intn(4); k > 0; k-- {
		// nothing in the first commits
		if main < 0 {
			main = add(map[string]File{})
		} else {
			main = add(map[string]File{}, main)
		}
	}
	g.create(tree)
	g.create(tree)
	if main < 0 {
		main = add(tree)
	} else {
		main = add(tree, main)
	}
	type line struct{ tip, closeAt int }
	var lines []line
	openUntil := func() int {
		i := len(g.repo.Commits)
		switch r.Intn(4) {
		case 0:
			return n + 1 // never
		case 1:
			return i + 1000 + r.Intn(n)
		default:
			return i + r.Intn(200)
		}
	}
	cut := -1
	var recent []int // of the main line before the cut
	for len(g.repo.Commits) < n {
		i := len(g.repo.Commits)
		if late {
			if cut < 0 {
				if recent = append(recent, main); len(recent) > 400 {
					recent = recent[1:]
				}
				if i >= n*2/3 {
					cut = main
				}
			}
			if i > n-60 && chance(r, 0.4) {
				from := recent[r.Intn(len(recent))]
				lines = append(lines, line{add(small(g.repo.Commits[from].Tree), from), i + r.Intn(20)})
			}
		}
		// merge lines which are due
		for k := 0; k < len(lines); k++ {
			if lines[k].closeAt <= i {
				ps := []int{main, lines[k].tip}
				if chance(r, 0.3) {
					ps[0], ps[1] = ps[1], ps[0]
				}
				t := g.mergeTree([]map[string]File{g.repo.Commits[ps[0]].Tree, g.repo.Commits[ps[1]].Tree})
				main = add(t, ps...)
				lines = append(lines[:k], lines[k+1:]...)
				k--
			}
		}
		switch {
		case chance(r, 0.02) && len(lines) < 25:
			// fork, from the end or from far away
			from := main
			if chance(r, 0.4) {
				from = r.Intn(i)
			}
			lines = append(lines, line{add(small(g.repo.Commits[from].Tree), from), openUntil()})
		case len(lines) > 0 && chance(r, 0.1):
			k := r.Intn(len(lines))
			lines[k].tip = add(small(g.repo.Commits[lines[k].tip].Tree), lines[k].tip)
		default:
			main = add(small(g.repo.Commits[main].Tree), main)
		}
	}
	g.repo.Head = "refs/heads/master"
	g.repo.Refs["refs/heads/master"] = main
	for k, l := range lines {
		g.repo.Refs[fmt.Sprintf("refs/heads/line%d", k)] = l.tip
	}
	return g.repo, cut
}

func scnLong(e *Env) {
	a := longArg{Commits: 1500}
	e.arg(&a)
	r, cut := e.longRepo(a.Commits, a.Late)
	e.build(r)
	h := extract(r)
	emitHistory(e.T, h)
	s := e.scn(h)
	all := chance(e.R, 0.7)
	ck := e.ckptDir("ck1")
	if !a.Resume {
		s.run(Run{Kind: "full", Heads: heads(r, all), All: all, Strict: true, Ckpt: ck})
		return
	}
	// two runs, cut somewhere on the way. Everything needed by the second has to be in the checkpoint after the first one.
	full := r.Refs[r.Head]
	for k := 0; k < 40 && cut < 0; k++ {
		c := e.R.Intn(len(r.Commits))
		if c < len(r.Commits)/3 || !r.reach(full)[c] {
			continue
		}
		cut = c
	}
	if cut < 0 {
		return
	}
	r.SetRefs(map[string]int{"refs/heads/master": full}, "refs/heads/master")
	s.run(Run{Kind: "full", Heads: []int{full + 1}, Strict: true, Ckpt: e.ckptDir("ckref")})
	r.SetRefs(map[string]int{"refs/heads/master": cut}, "refs/heads/master")
	s.run(Run{Kind: "full", Heads: []int{cut + 1}, Strict: true, Ckpt: ck, Cmp: 1})
	r.SetRefs(map[string]int{"refs/heads/master": full}, "refs/heads/master")
	run := Run{Kind: "incl", From: cut + 1, Heads: []int{full + 1}, Strict: true, Ckpt: ck, Cmp: 1}
	s.run(run)
}

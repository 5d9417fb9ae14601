package main

import (
	"fmt"
	"strings"
)

// Table is a set of small histories of the same shape, which are put next to each other into one repository.
type Table struct {
	Shape [][]int     `json:"shape"` // parents, numbered from 1
	Files [][]Version `json:"files"` // one path each, its versions in all commits
	Trees [][]int     `json:"trees"` // per commit, per path: number of the content, 0 if there is no such path
	Moves [][]Move    `json:"moves"` // one pair of commits each: what happens in the second one
	Texts [][]string  `json:"texts"` // one path each, its raw contents in all commits, "-" if there is none
}

// Version of a file, as it is in MCFile.
type Version struct {
	K string `json:"k"`
	L []int  `json:"l"`
}

// concrete content. Every line of the specification is a number of lines here, so that changes are in the same hunk or not.
func (v Version) file(c int, times []int, noeol int) File {
	var b strings.Builder
	for _, l := range v.L {
		for j := 0; j < times[l%len(times)]; j++ {
			fmt.Fprintf(&b, "case %d line %d.%d\n", c, l, j)
		}
	}
	s := b.String()
	switch v.K {
	case "text", "exec":
		if len(v.L) != 0 && v.L[len(v.L)-1] == noeol {
			s = strings.TrimSuffix(s, "\n")
		}
		if v.K == "exec" {
			return File{"100755", []byte(s)}
		}
		return File{"100644", []byte(s)}
	case "link":
		return File{"120000", []byte(strings.Replace(strings.TrimSuffix(s, "\n"), "\n", "/", -1))}
	case "bin":
		return File{"100644", []byte("\x00" + s)}
	}
	panic(harnessErr{fmt.Errorf("unknown kind of version %v", v.K)})
}

// Move is a change as it is in MCMeta: M, A, D of p, or R of p to q.
type Move struct {
	K string `json:"k"`
	P string `json:"p"`
	Q string `json:"q"`
}

// moves makes the trees before and after, all counts are different.
func (e *Env) moves(ms []Move, n int, before, after map[string]File) {
	size := 8 + e.R.Intn(10)
	for k, m := range ms {
		var b strings.Builder
		for j := 0; j < size*(k+1); j++ {
			fmt.Fprintf(&b, "case %d change %d line %d\n", n, k, j)
		}
		old := b.String()
		for j := 0; j <= k; j++ {
			fmt.Fprintf(&b, "added %d %d %d\n", n, k, j)
		}
		if m.K != "A" {
			before[m.P] = File{"100644", []byte(old)}
		}
		switch m.K {
		case "A", "M":
			after[m.P] = File{"100644", []byte(b.String())}
		case "R":
			after[m.Q] = File{"100644", []byte(b.String())}
		}
	}
}

func (e *Env) tableRepo(t *Table) *Repo {
	r := e.R
	g := &gen{r: r, p: RandomProfile(r), repo: &Repo{Refs: map[string]int{}}}
	g.p.WeirdMeta = false
	if chance(r, 0.7) {
		g.p.DateMode = 0
	}
	for i, ps := range t.Shape {
		c := &Commit{Tree: map[string]File{}}
		for _, p := range ps {
			c.Parents = append(c.Parents, p-1)
		}
		g.meta(c, i)
		g.repo.Commits = append(g.repo.Commits, c)
	}
	ext := []string{".go", ".txt", ".py", ""}[r.Intn(4)]
	sizes := []int{1, 1, 2, 3, 4, 7, 9}
	for k, vs := range t.Files {
		times := []int{}
		for j := 0; j < 4; j++ {
			times = append(times, sizes[r.Intn(len(sizes))])
		}
		noeol := 0
		if chance(r, 0.4) {
			noeol = 1 + r.Intn(3)
		}
		p := fmt.Sprintf("d%d/case%d%s", k%7, k, ext)
		for i, v := range vs {
			if v.K != "absent" {
				g.repo.Commits[i].Tree[p] = v.file(k, times, noeol)
			}
		}
	}
	for k, vs := range t.Texts {
		p := fmt.Sprintf("d%d/text%d%s", k%7, k, ext)
		for i, s := range vs {
			if s != "-" {
				g.repo.Commits[i].Tree[p] = File{"100644", []byte(s)}
			}
		}
	}
	if t.Trees != nil {
		names := []string{"a/f.go", "b/f.go", "a/g.go", "h"}
		size := []int{1, 3, 12}[r.Intn(3)]
		for i, tr := range t.Trees {
			for k, v := range tr {
				if v == 0 {
					continue
				}
				// contents 2k and 2k+1 are similar
				var b strings.Builder
				for j := 0; j < 4*size; j++ {
					if v%2 == 1 && j == size {
						fmt.Fprintf(&b, "changed line\n")
					}
					fmt.Fprintf(&b, "content %d line %d\n", v/2, j)
				}
				g.repo.Commits[i].Tree[names[k]] = File{"100644", []byte(b.String())}
			}
		}
	}
	for k, ms := range t.Moves {
		e.moves(ms, k, g.repo.Commits[2*k].Tree, g.repo.Commits[2*k+1].Tree)
	}
	refs := map[string]int{}
	has := map[int]bool{}
	for _, c := range g.repo.Commits {
		for _, p := range c.Parents {
			has[p] = true
		}
	}
	for i := range g.repo.Commits {
		if !has[i] {
			refs[fmt.Sprintf("refs/heads/tip%d", i)] = i
			g.repo.Head = fmt.Sprintf("refs/heads/tip%d", i)
		}
	}
	g.repo.Refs = refs
	e.build(g.repo)
	return g.repo
}

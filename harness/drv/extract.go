package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
)

const emptyTree = "4b825dc642cb6eb9a060e54bf8d69288fbee4904"

// Block is one contiguous change: before it Old lines of the previous version are kept (counted from the end of the previous block), then Del lines are removed and Add lines are added.
type Block struct {
	Keep int
	Del  int
	Add  []int
}

// Entry is one changed path between two versions of the tree, as git describes it.
type Entry struct {
	S   string // A, M, D, R, T
	P   int    // path, new one in case of rename
	Q   int    // previous path, 0 if none
	Bin bool   // git shows the change as binary
	H   bool   // git shows a patch (at least one hunk)
	X   []Block
	GB  [][2]int // result of git blame: line, commit. Only when it could be needed.
	gb  bool
	M   string // mode of the new version, 000000 if there is none
}

// Ids gives small numbers to strings.
type Ids struct {
	m   map[string]int
	rev []string
}

func newIds() *Ids { return &Ids{m: map[string]int{}, rev: []string{""}} }

func (s *Ids) get(v string) int {
	if id, ok := s.m[v]; ok {
		return id
	}
	id := len(s.rev)
	s.m[v] = id
	s.rev = append(s.rev, v)
	return id
}

// Hist is everything the specification needs to know about a repository, commits are numbered from 1.
type Hist struct {
	repo    *Repo
	lines   *Ids
	paths   *Ids
	commits map[string]int // sha -> number
	// per commit, per parent (one for root commit)
	diffs [][][]Entry
	bin   []map[int]bool
}

func stripCR(l []byte) string {
	return strings.TrimRight(string(l), "\r")
}

func extract(r *Repo) *Hist {
	h := &Hist{repo: r, lines: newIds(), paths: newIds(), commits: map[string]int{}}
	for i, s := range r.Shas {
		h.commits[s] = i + 1
	}
	// trees
	var in bytes.Buffer
	for _, s := range r.Shas {
		in.WriteString(s + "^{tree}\n")
	}
	out := git(r.Dir, in.Bytes(), "cat-file", "--batch-check=%(objectname)")
	trees := strings.Split(strings.TrimSpace(string(out)), "\n")
	if len(trees) != len(r.Shas) {
		panic(harnessErr{fmt.Errorf("unexpected number of trees")})
	}
	type pair struct{ a, b string }
	pairs := map[pair][]Entry{}
	var order []pair
	in.Reset()
	add := func(a, b string) {
		p := pair{a, b}
		if _, ok := pairs[p]; ok {
			return
		}
		pairs[p] = nil
		order = append(order, p)
		in.WriteString(a + " " + b + "\n")
	}
	for i, c := range r.Commits {
		if len(c.Parents) == 0 {
			add(emptyTree, trees[i])
		}
		for _, p := range c.Parents {
			add(trees[p], trees[i])
		}
	}
	raw := git(r.Dir, in.Bytes(), "diff-tree", "--stdin", "-r", "-z", "--raw", "-M", "-l10000", "--no-abbrev")
	patch := git(r.Dir, in.Bytes(), "diff-tree", "--stdin", "-r", "-p", "-M", "-U3", "-l10000", "--no-color", "--no-ext-diff", "--no-textconv", "--full-index")
	rp := &rawParser{b: raw}
	pp := &patchParser{b: patch, h: h}
	for _, p := range order {
		hdr := p.a + " " + p.b + "\n"
		rp.expect(hdr)
		pp.expect(hdr)
		var es []Entry
		for rp.more() {
			e := rp.entry(h)
			pp.patch(&e)
			es = append(es, e)
		}
		pairs[p] = es
	}
	if len(rp.b) != 0 || len(pp.b) != 0 {
		panic(harnessErr{fmt.Errorf("unparsed diff output")})
	}
	for i, c := range r.Commits {
		var d [][]Entry
		if len(c.Parents) == 0 {
			d = append(d, pairs[pair{emptyTree, trees[i]}])
		}
		for _, p := range c.Parents {
			d = append(d, pairs[pair{trees[p], trees[i]}])
		}
		h.diffs = append(h.diffs, d)
	}
	h.gitBlames()
	return h
}

// gitBlames adds the git blame result for text changes on top of a file that has no line data because it is handled as binary.
func (h *Hist) gitBlames() {
	for i, c := range h.repo.Commits {
		st := map[int]bool{}
		h.bin = append(h.bin, st)
		if len(c.Parents) < 2 {
			gone := map[int]bool{}
			for k := range h.diffs[i][0] {
				e := &h.diffs[i][0][k]
				if e.S == "R" {
					gone[e.Q] = true
				}
				if e.S == "D" {
					gone[e.P] = true
					continue
				}
				switch {
				case e.Bin:
					st[e.P] = true
				case e.S == "A" || e.S == "T":
					st[e.P] = false
				case h.bin[c.Parents[0]][e.Q] && !e.H:
					st[e.P] = true
				case h.bin[c.Parents[0]][e.Q]:
					st[e.P] = false
					if !e.gb {
						// entries are shared between commits with same trees, make a copy
						es := append([]Entry{}, h.diffs[i][0]...)
						h.diffs[i][0] = es
						es[k].gb = true
						es[k].GB = h.blame(i, es[k].P)
					}
				default:
					st[e.P] = false
				}
			}
			if len(c.Parents) == 1 {
				for p, b := range h.bin[c.Parents[0]] {
					if _, ok := st[p]; !ok && !gone[p] {
						st[p] = b
					}
				}
			}
			continue
		}
		for j, par := range c.Parents {
			for _, e := range h.diffs[i][j] {
				if e.S == "D" {
					continue
				}
				b := e.Bin
				if e.S == "M" || e.S == "R" {
					b = b || h.bin[par][e.Q]
				}
				st[e.P] = st[e.P] || b
			}
		}
		// the same file in one of the parents, when more than one is possible it is enough that one of them is binary
		for j, par := range c.Parents {
			has := map[int]bool{}
			for _, e := range h.diffs[i][j] {
				if e.S != "D" {
					has[e.P] = true
				}
			}
			for p, b := range h.bin[par] {
				if _, exists := c.Tree[h.paths.rev[p]]; exists && !has[p] {
					st[p] = st[p] || b
				}
			}
		}
	}
}

func (h *Hist) blame(commit int, path int) (res [][2]int) {
	out := git(h.repo.Dir, nil, "-c", "core.quotePath=false", "blame", "--line-porcelain", h.repo.Shas[commit], "--", h.paths.rev[path])
	for len(out) > 0 {
		i := bytes.IndexByte(out, '\n')
		sha := string(out[:40])
		out = out[i+1:]
		for out[0] != '\t' {
			out = out[bytes.IndexByte(out, '\n')+1:]
		}
		i = bytes.IndexByte(out, '\n')
		var l []byte
		if i < 0 {
			l = out[1:]
			out = nil
		} else {
			l = out[1:i]
			out = out[i+1:]
		}
		res = append(res, [2]int{h.lines.get(stripCR(l)), h.commits[sha]})
	}
	return
}

type rawParser struct{ b []byte }

func (s *rawParser) expect(hdr string) {
	if !bytes.HasPrefix(s.b, []byte(hdr)) {
		panic(harnessErr{fmt.Errorf("unexpected raw diff output, wanted %q", hdr)})
	}
	s.b = s.b[len(hdr):]
}

func (s *rawParser) more() bool { return len(s.b) > 0 && s.b[0] == ':' }

func (s *rawParser) field() string {
	i := bytes.IndexByte(s.b, 0)
	v := string(s.b[:i])
	s.b = s.b[i+1:]
	return v
}

func (s *rawParser) entry(h *Hist) (e Entry) {
	f := strings.Fields(s.field())
	e.S = f[4][:1]
	e.M = f[1]
	p := s.field()
	switch e.S {
	case "R":
		e.Q = h.paths.get(p)
		e.P = h.paths.get(s.field())
	case "M":
		e.P = h.paths.get(p)
		e.Q = e.P
	case "A", "D", "T":
		e.P = h.paths.get(p)
	default:
		panic(harnessErr{fmt.Errorf("unexpected status %v", e.S)})
	}
	return
}

type patchParser struct {
	b []byte
	h *Hist
}

func (s *patchParser) expect(hdr string) {
	if !bytes.HasPrefix(s.b, []byte(hdr)) {
		panic(harnessErr{fmt.Errorf("unexpected patch output, wanted %q", hdr)})
	}
	s.b = s.b[len(hdr):]
}

func (s *patchParser) line() []byte {
	i := bytes.IndexByte(s.b, '\n')
	v := s.b[:i]
	s.b = s.b[i+1:]
	return v
}

func (s *patchParser) peek(p string) bool { return bytes.HasPrefix(s.b, []byte(p)) }

func (s *patchParser) patch(e *Entry) {
	if e.S == "T" {
		del := Entry{S: "D"}
		s.one(&del)
	}
	s.one(e)
}

var headerPrefixes = []string{"old mode ", "new mode ", "deleted file mode ", "new file mode ", "similarity index ", "dissimilarity index ", "rename from ", "rename to ", "index ", "--- ", "+++ "}

func (s *patchParser) one(e *Entry) {
	if !s.peek("diff --git ") {
		panic(harnessErr{fmt.Errorf("wanted diff header, got %q", s.b[:50])})
	}
	s.line()
HEADERS:
	for {
		for _, p := range headerPrefixes {
			if s.peek(p) {
				s.line()
				continue HEADERS
			}
		}
		break
	}
	if s.peek("Binary files ") {
		s.line()
		e.Bin = true
		return
	}
	oldPos := 0 // lines of old version already passed
	for s.peek("@@ -") {
		e.H = true
		f := strings.Fields(string(s.line()))
		os, oc := parseRange(f[1])
		_, nc := parseRange(f[2])
		if oc != 0 {
			os--
		}
		keep := os - oldPos
		oldPos = os
		var cur *Block
		for oc > 0 || nc > 0 || s.peek("\\") {
			switch s.b[0] {
			case ' ':
				cur = nil
				keep++
				oldPos++
				oc--
				nc--
				s.line()
			case '-', '+':
				if cur == nil {
					e.X = append(e.X, Block{Keep: keep})
					cur = &e.X[len(e.X)-1]
					keep = 0
				}
				l := s.line()
				if l[0] == '-' {
					cur.Del++
					oc--
					oldPos++
				} else {
					cur.Add = append(cur.Add, s.h.lines.get(stripCR(l[1:])))
					nc--
				}
			case '\\':
				s.line()
			default:
				panic(harnessErr{fmt.Errorf("unexpected line in hunk %q", s.line())})
			}
		}
		// context at the end of a hunk is counted in keep of the following block
		oldPos -= keep
	}
}

func parseRange(s string) (start, count int) {
	s = s[1:]
	count = 1
	if i := strings.IndexByte(s, ','); i >= 0 {
		var err error
		count, err = strconv.Atoi(s[i+1:])
		must(err)
		s = s[:i]
	}
	start, err := strconv.Atoi(s)
	must(err)
	return
}

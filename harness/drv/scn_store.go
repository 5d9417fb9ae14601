package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"

	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	"github.com/pinpt/ripsrc/ripsrc/history3/process/repo"
)

func init() {
	kinds["store"] = scnStore
}

// storeCase is a content of a checkpoint, as it is in MCStore. Numbers start with 1, except in d.
type storeCase struct {
	Rows     [][][2]int `json:"rows"`
	Versions []struct {
		C int   `json:"c"`
		B bool  `json:"b"`
		L []int `json:"l"`
	} `json:"versions"`
	Lines []struct {
		C int `json:"c"`
		D int `json:"d"`
	} `json:"lines"`
}

// texts 2 and 3 have the same hash
var storeTexts = [][]string{
	{"", "xxxxxxxxxxxxxxxxqw7b3pdkyyyyyyyyzzzzzzzzzzzzzzzzhx4py8gpwwwwwwww", "xxxxxxxxxxxxxxxxrzc7thmcyyyyyyyyzzzzzzzzzzzzzzzze@Hs|~/wwwwwwwww", "\x00\xff"},
	{"", "xxxxxxxxxxxxxxxxznjdm1fvyyyyyyyyzzzzzzzzzzzzzzzz1]Ll0U@gwwwwwwww", "xxxxxxxxxxxxxxxxmlz2f4bsyyyyyyyyzzzzzzzzzzzzzzzzv7o8e2slwwwwwwww", " "},
	{"a", "", "b", "\r"},
}

type storeFile struct {
	P int    `json:"p"`
	C int    `json:"c"`
	B bool   `json:"b"`
	R []any2 `json:"l"`
}

// any2 is a line: commit and text
type any2 struct {
	C int
	T string
}

func (a any2) MarshalJSON() ([]byte, error) { return json.Marshal([]interface{}{a.C, a.T}) }

func scnStore(e *Env) {
	var arg struct {
		Stores   []json.RawMessage `json:"stores"`
		Together bool              `json:"together"`
	}
	e.arg(&arg)
	texts := storeTexts[e.R.Intn(len(storeTexts))]
	paths := [][]string{{"a", "b"}, {"dir/x y", "\xffé"}, {"\"q\"", " "}}[e.R.Intn(3)]
	commit := func(k, c int) string { return fmt.Sprintf("%020x%020x", k+1, c) }
	load := func(k int, x storeCase, r repo.Repo) {
		var ls []*incblame.Line
		for _, l := range x.Lines {
			ls = append(ls, &incblame.Line{Line: []byte(texts[l.D-1]), Commit: commit(k, l.C)})
		}
		var vs []*incblame.Blame
		for _, v := range x.Versions {
			b := &incblame.Blame{Commit: commit(k, v.C), IsBinary: v.B}
			for _, n := range v.L {
				b.Lines = append(b.Lines, ls[n-1])
			}
			vs = append(vs, b)
		}
		for c, rows := range x.Rows {
			r.AddCommit(commit(k, c+1))
			for _, row := range rows {
				r[commit(k, c+1)][paths[row[0]-1]] = vs[row[1]-1]
			}
		}
	}
	num := func(k int, h string) int {
		for c := 1; c <= 2; c++ {
			if commit(k, c) == h {
				return c
			}
		}
		return -1
	}
	judge := func(k int, raw json.RawMessage, got repo.Repo, total int, err error) {
		es := "none"
		if err != nil {
			es = "other"
		}
		out := [][]storeFile{}
		if err == nil && len(got) == total {
			for c := 1; c <= 2; c++ {
				files, ok := got[commit(k, c)]
				if !ok {
					out = out[:0]
					break
				}
				fs := []storeFile{}
				for p, b := range files {
					f := storeFile{P: -1, C: num(k, b.Commit), B: b.IsBinary, R: []any2{}}
					for i := range paths {
						if paths[i] == p {
							f.P = i + 1
						}
					}
					for _, l := range b.Lines {
						f.R = append(f.R, any2{num(k, l.Commit), fmt.Sprintf("%x", l.Line)})
					}
					fs = append(fs, f)
				}
				sort.Slice(fs, func(a, b int) bool { return fs[a].P < fs[b].P })
				out = append(out, fs)
			}
		}
		var names []string
		for _, t := range texts {
			names = append(names, fmt.Sprintf("%x", t))
		}
		e.T.emit(obj{"e": "store", "x": raw, "names": names, "out": out, "err": es})
	}
	dir, err := ioutil.TempDir(e.Dir, "store")
	must(err)
	n := 0
	trip := func(r repo.Repo) (repo.Repo, error) {
		n++
		loc := filepath.Join(dir, fmt.Sprint(n))
		defer os.RemoveAll(loc)
		mark("run_begin")
		defer mark("run_end")
		if err := repo.NewCheckpointWriter(nullLogger{}).Write(r, loc, commit(0, 1)); err != nil {
			return nil, err
		}
		return repo.NewCheckpointReader(nullLogger{}).Read(loc, commit(0, 1))
	}
	all := repo.New()
	for k, raw := range arg.Stores {
		var x storeCase
		must(json.Unmarshal(raw, &x))
		r := all
		if !arg.Together {
			r = repo.New()
		}
		load(k, x, r)
		if !arg.Together {
			got, err := trip(r)
			judge(k, raw, got, 2, err)
		}
	}
	if arg.Together {
		got, err := trip(all)
		for k, raw := range arg.Stores {
			judge(k, raw, got, 2*len(arg.Stores), err)
		}
	}
}

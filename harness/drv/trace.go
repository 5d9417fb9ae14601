package main

import (
	"encoding/json"
	"os"
	"strings"
)

// Trace writes events as one JSON object per line. Written directly to the file, so that a crash of the process keeps everything before it.
type Trace struct {
	f *os.File
}

func newTrace(loc string) *Trace {
	f, err := os.Create(loc)
	must(err)
	return &Trace{f: f}
}

func (s *Trace) emit(ev map[string]interface{}) {
	b, err := json.Marshal(ev)
	must(err)
	_, err = s.f.Write(append(b, '\n'))
	must(err)
}

func (s *Trace) close() { must(s.f.Close()) }

type obj = map[string]interface{}

func ints(v []int) []int {
	if v == nil {
		return []int{}
	}
	return v
}

func entryJSON(e Entry) obj {
	x := []interface{}{}
	for _, b := range e.X {
		x = append(x, []interface{}{b.Keep, b.Del, ints(b.Add)})
	}
	gb := e.GB
	if gb == nil {
		gb = [][2]int{}
	}
	return obj{"s": e.S, "p": e.P, "q": e.Q, "b": e.Bin, "h": e.H, "x": x, "gb": gb, "hasgb": e.gb}
}

// emitHistory writes the events for all commits.
func emitHistory(t *Trace, h *Hist) {
	for i := range h.repo.Commits {
		emitCommit(t, h, i)
	}
}

func emitCommit(t *Trace, h *Hist, i int) {
	c := h.repo.Commits[i]
	ps := []int{}
	for _, p := range c.Parents {
		ps = append(ps, p+1)
	}
	ds := []interface{}{}
	for _, es := range h.diffs[i] {
		d := []interface{}{}
		for _, e := range es {
			d = append(d, entryJSON(e))
		}
		ds = append(ds, d)
	}
	// content of changed text files according to the tree
	w := []interface{}{}
	seen := map[int]bool{}
	for _, e := range h.diffs[i][0] {
		if e.S == "D" || e.Bin || seen[e.P] {
			continue
		}
		seen[e.P] = true
		f := c.Tree[h.paths.rev[e.P]]
		data := f.Data
		if f.Mode == "160000" {
			data = []byte("Subproject commit " + string(f.Data))
		}
		if f.Mode[:3] == "100" && isBinary(data) {
			continue
		}
		ls := []int{}
		for _, l := range parseText(data).lines {
			ls = append(ls, h.lines.get(strings.TrimRight(l, "\r")))
		}
		w = append(w, []interface{}{e.P, ls})
	}
	t.emit(obj{"e": "commit", "c": i + 1, "ps": ps, "d": ds, "w": w})
}

package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

// Profile controls random generation of a history.
type Profile struct {
	Commits    int // number of commits
	Paths      []string
	MergeP     float64 // probability of a merge
	RootP      float64 // probability of an additional root
	ForkP      float64 // probability of starting a new line of development
	MaxPar     int     // max number of parents
	EmptyP     float64 // probability of a commit without changes
	Bin        float64 // weight of binary operations
	Special    float64 // weight of mode changes, symlinks, submodules
	Rename     float64
	Delete     float64
	Hostile    float64 // probability for a line to be taken from hostile pool
	Repeat     float64 // probability for a line to be taken from a small repeated pool
	Indent     float64 // these are indented
	MaxLines   int
	HugeP      float64 // probability that a created file has tens of thousands of lines
	ParP       float64 // probability of each parent after the second
	HugeMin    int     // at least this many lines then
	ManyFiles  int     // number of files which are created and changed together
	AllOver    float64 // probability that an edit changes many places of the file
	LongMax    int     // maximal length of long lines
	LongMsg    int     // length of long messages and names
	NoiseP     float64 // probability that a created file has many lines which cannot be compressed
	BigFileP   float64 // probability that a created file has many lines and edits many hunks
	CR         float64 // probability of carriage return at the end of line
	LongLineP  float64
	DateMode   int // 0 increasing, 1 equal, 2 random, 3 decreasing
	WeirdMeta  bool
	OpsPerComm int
	AllRefs    bool
	Code       float64 // probability of a line of source code
	CommentP   float64 // probability that it is a comment
	KeepHeads  int     // how many lines of development are kept open
}

var plainPaths = []string{"a.go", "b.go", "c.txt", "dir/d.go", "dir/sub/e.go", "f"}

var weirdPaths = []string{
	"a b.go", "dir with space/x y.txt", "\303\244\303\266.go", "quote\"d.txt", "back\\slash.go", "tab\there.txt",
	"new\nline.txt", " lead.go", "trail ", "a b/b a", "diff --git a", "@@@del@@@a.go", "-dash", "@@ -1 +1 @@", "{x}.go", "x => y.go",
	"deleted file", "rename from", "b/b", "a/a", "dir/\001ctl", "\xff\xfe.bin", "x b", "c b/x b", ":colon", "!SHA: x", "Binary files", "~", "'single'", "$(x)", "*", "[a]", "..a", "a..b", "\"", "\\", "é", "日本語.go", "x\rcr.go", "trailtab\t", "(null)", "dev/null", "null", "# hash",
}

var hostileLines = []string{
	"diff --git a/a.go b/a.go", "diff", "diff --combined x", "commit 0123456789012345678901234567890123456789", "commit ", "@@ -1,2 +3,4 @@", "@@", "@@ -1 +1 @@ x", "@", "@@@",
	"--- a/a.go", "+++ b/a.go", "---", "+++", "--", "-- x", "-", "+", "++", "-a", "+a", "\\ No newline at end of file", "\\", "\\x", " ", "  ", "\t", "\t\t", "",
	"Binary files a/a.go and b/a.go differ", "rename from a.go", "rename to b.go", "deleted file mode 100644", "new file mode 100644", "index 000..111", "similarity index 100%",
	"Merge: 123 456", "Author: x <y>", "!SHA: 0123456789012345678901234567890123456789", "!Author: x", "!Message: x", ":100644 100644 000 111 M\ta.go", "1\t2\ta.go", "author x", "filename x", "boundary", "previous x y", "0123456789012345678901234567890123456789 1 1 1", "summary x",
	"\x00" + "", "\xff\xfe", "é", "\x1b[31m", "+\t", "-\t", " \t ", "From x", "#", "<<<<<<< HEAD", "=======", ">>>>>>> x", "\x0b", "\x0c", "\u2028", "Subproject commit 0123456789012345678901234567890123456789",
	// shown by git as heading of a hunk
	"func a@@b() {", "_x @@ -1,2 +3,4 @@ y", "$ @@", "x@", "a -1 +2 @@", "h @@@ -1,2 -3,4 +5,6 @@@",
	// same xxhash64
	"xxxxxxxxxxxxxxxxqw7b3pdkyyyyyyyyzzzzzzzzzzzzzzzzhx4py8gpwwwwwwww", "xxxxxxxxxxxxxxxxrzc7thmcyyyyyyyyzzzzzzzzzzzzzzzze@Hs|~/wwwwwwwww",
}

func init() {
	// lines must not contain NUL, git would treat the file as binary
	var res []string
	for _, l := range hostileLines {
		if !strings.Contains(l, "\x00") {
			res = append(res, l)
		}
	}
	hostileLines = res
}

var repeatLines = []string{"}", "", "x", "return", "{", "end"}

type gen struct {
	r    *rand.Rand
	p    Profile
	uniq int
	repo *Repo
	// open heads
	heads []int
}

func chance(r *rand.Rand, p float64) bool { return r.Float64() < p }

func (g *gen) line() string {
	r := g.r
	var l string
	switch {
	case chance(r, g.p.Hostile):
		l = hostileLines[r.Intn(len(hostileLines))]
	case chance(r, g.p.Repeat):
		l = repeatLines[r.Intn(len(repeatLines))]
		if g.p.Indent > 0 && l != "" && chance(r, g.p.Indent) {
			l = strings.Repeat("\t", r.Intn(3)) + l
		}
	case chance(r, g.p.Code):
		g.uniq++
		switch {
		case chance(r, 0.04*g.p.CommentP):
			l = markerLines[r.Intn(len(markerLines))]
		case chance(r, g.p.CommentP):
			l = commentLines[r.Intn(len(commentLines))]
		case chance(r, 0.5):
			l = codeLines[r.Intn(len(codeLines))]
		default:
			l = fmt.Sprintf("\tx%d = f(%d)", g.uniq, g.uniq)
		}
	case chance(r, g.p.LongLineP):
		g.uniq++
		n := 1000 + r.Intn(3000)
		if g.p.LongMax > 0 {
			n = r.Intn(g.p.LongMax)
		}
		switch r.Intn(4) + g.p.LongMax {
		case 0:
			n = 60000 + r.Intn(12000)
		case 1:
			n = 120000 + r.Intn(30000)
		}
		l = fmt.Sprintf("L%d", g.uniq) + strings.Repeat("y", n)
	default:
		g.uniq++
		l = fmt.Sprintf("l%d", g.uniq)
	}
	if chance(r, g.p.CR) {
		l += "\r"
		if chance(r, 0.2) {
			l += "\r"
		}
	}
	return l
}

type text struct {
	lines []string
	nonl  bool // no newline at the end of file
}

func (t text) bytes() []byte {
	s := strings.Join(t.lines, "\n")
	if len(t.lines) == 0 {
		return nil
	}
	if t.nonl && t.lines[len(t.lines)-1] != "" {
		return []byte(s)
	}
	return []byte(s + "\n")
}

func parseText(b []byte) text {
	if len(b) == 0 {
		return text{}
	}
	nonl := true
	if b[len(b)-1] == '\n' {
		nonl = false
		b = b[:len(b)-1]
	}
	return text{lines: strings.Split(string(b), "\n"), nonl: nonl}
}

func (g *gen) newText() []byte {
	r := g.r
	n := r.Intn(g.p.MaxLines + 1)
	if chance(r, g.p.BigFileP) {
		n = 60 + r.Intn(250)
	}
	if g.p.HugeP > 0 && chance(r, g.p.HugeP) {
		n = g.p.HugeMin + r.Intn(60000)
	}
	t := text{nonl: chance(r, 0.15)}
	if g.p.NoiseP > 0 && chance(r, g.p.NoiseP) {
		for i := 0; i < 700; i++ {
			b := make([]byte, 80)
			for k := range b {
				b[k] = byte(33 + r.Intn(94))
			}
			t.lines = append(t.lines, string(b))
		}
		n = 0
	}
	for i := 0; i < n; i++ {
		t.lines = append(t.lines, g.line())
	}
	if g.p.Code > 0 && n > 30 && n < 1000 && chance(r, 0.4) {
		// far from the start
		t.lines[n-1-r.Intn(n/3)] = markerLines[r.Intn(len(markerLines))]
	}
	return t.bytes()
}

func (g *gen) newBinary() []byte {
	g.uniq++
	b := []byte(fmt.Sprintf("bin%d\x00\x01", g.uniq))
	for i := 0; i < g.r.Intn(30); i++ {
		b = append(b, byte(g.r.Intn(256)))
	}
	if chance(g.r, 0.5) {
		b = append(b, []byte(fmt.Sprintf("\nx%d\ny\n", g.uniq))...)
	}
	return b
}

// similarName returns a path which is almost the same.
func similarName(r *rand.Rand, p string) string {
	i := strings.LastIndex(p, "/") + 1
	dir, base := p[:i], p[i:]
	switch r.Intn(5) {
	case 0:
		return dir + strings.ToUpper(base)
	case 1:
		return strings.ToUpper(dir) + base
	case 2:
		return strings.ToLower(p)
	case 3:
		return p + " "
	}
	return dir + " " + base
}

func isBinary(b []byte) bool {
	if len(b) > 8000 {
		b = b[:8000]
	}
	return bytes.IndexByte(b, 0) >= 0
}

func (g *gen) editText(b []byte) []byte {
	r := g.r
	t := parseText(b)
	lines := append([]string{}, t.lines...)
	ops := 1 + r.Intn(3)
	if len(lines) > 60 {
		ops = 1 + r.Intn(25)
	}
	if g.p.AllOver > 0 && chance(r, g.p.AllOver) {
		// changes in hundreds of places
		var res []string
		step := 2 + r.Intn(9)
		for i, l := range lines {
			if i%step == 0 {
				switch r.Intn(4) {
				case 0:
					continue
				case 1:
					res = append(res, g.line())
				default:
					res = append(res, l, g.line())
					continue
				}
			}
			res = append(res, l)
		}
		lines = res
	}
	for k := 0; k < ops; k++ {
		at := 0
		if len(lines) > 0 {
			at = r.Intn(len(lines) + 1)
			if chance(r, 0.15) {
				at = 0
			}
			if chance(r, 0.15) {
				at = len(lines)
			}
		}
		n := 1 + r.Intn(3)
		if chance(r, 0.1) {
			n = 1 + r.Intn(12)
		}
		end := at + n
		if end > len(lines) {
			end = len(lines)
		}
		ins := func() []string {
			var res []string
			for i := 0; i < n; i++ {
				res = append(res, g.line())
			}
			return res
		}
		switch r.Intn(6) {
		case 0, 1: // insert
			lines = append(append(append([]string{}, lines[:at]...), ins()...), lines[at:]...)
		case 2: // delete
			lines = append(append([]string{}, lines[:at]...), lines[end:]...)
		case 3: // replace
			lines = append(append(append([]string{}, lines[:at]...), ins()...), lines[end:]...)
		case 4: // duplicate block
			bl := append([]string{}, lines[at:end]...)
			lines = append(append(append([]string{}, lines[:at]...), bl...), lines[at:]...)
		case 5: // move block to the end
			bl := append([]string{}, lines[at:end]...)
			lines = append(append([]string{}, lines[:at]...), lines[end:]...)
			lines = append(lines, bl...)
		}
	}
	t.lines = lines
	if chance(r, 0.08) {
		t.nonl = !t.nonl
	}
	if chance(r, 0.02) {
		// change line endings of the whole file
		for i := range t.lines {
			if strings.HasSuffix(t.lines[i], "\r") {
				t.lines[i] = strings.TrimRight(t.lines[i], "\r")
			} else {
				t.lines[i] += "\r"
			}
		}
	}
	if chance(r, 0.02) {
		t.lines = nil
	}
	return t.bytes()
}

func conflicts(tree map[string]File, p string) bool {
	for q := range tree {
		if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
			return true
		}
	}
	return false
}

func (g *gen) freePath(tree map[string]File) string {
	for i := 0; i < 20; i++ {
		p := g.p.Paths[g.r.Intn(len(g.p.Paths))]
		if chance(g.r, 0.1) {
			p = "x/" + p
		}
		if _, ok := tree[p]; ok || conflicts(tree, p) {
			continue
		}
		return p
	}
	return ""
}

func (g *gen) someFile(tree map[string]File) string {
	ps := sortedPaths(tree)
	if len(ps) == 0 {
		return ""
	}
	return ps[g.r.Intn(len(ps))]
}

func (g *gen) create(tree map[string]File) {
	r := g.r
	p := g.freePath(tree)
	if p == "" {
		return
	}
	if g.p.ManyFiles > 0 && chance(r, 0.5) && !conflicts(tree, "many") {
		d := fmt.Sprintf("many/%d", r.Intn(3))
		for i := r.Intn(g.p.ManyFiles); i >= 0; i-- {
			g.uniq++
			tree[fmt.Sprintf("%s/f%d.go", d, i)] = File{Mode: "100644", Data: []byte(fmt.Sprintf("x%d\ny\n", g.uniq))}
		}
	}
	f := File{Mode: "100644", Data: g.newText()}
	if chance(r, 0.3*g.p.Bin) {
		f.Data = g.newBinary()
	}
	if chance(r, 0.3*g.p.Special) {
		f.Mode = "100755"
	}
	if chance(r, 0.1*g.p.Special) {
		g.uniq++
		f = File{Mode: "120000", Data: []byte(fmt.Sprintf("target%d", g.uniq))}
	}
	tree[p] = f
}

func cloneTree(t map[string]File) map[string]File {
	res := map[string]File{}
	for k, v := range t {
		res[k] = v
	}
	return res
}

func sameTree(a, b map[string]File) bool {
	if len(a) != len(b) {
		return false
	}
	for p, f := range a {
		f2, ok := b[p]
		if !ok || !sameFile(f, f2) {
			return false
		}
	}
	return true
}

func (g *gen) op(tree map[string]File) {
	r := g.r
	w := []struct {
		w float64
		f func()
	}{
		{float64(g.p.ManyFiles) * 0.01, func() { // directory is moved, changed or removed
			d := fmt.Sprintf("many/%d/", r.Intn(3))
			to := fmt.Sprintf("many/%d/", r.Intn(3))
			what := r.Intn(3)
			edit := chance(r, 0.5)
			if what == 0 && chance(r, 0.5) {
				// all of it
				d, to = "many/", fmt.Sprintf("many/%d/", r.Intn(3))
			}
			for _, p := range sortedPaths(tree) {
				if !strings.HasPrefix(p, d) {
					continue
				}
				f := tree[p]
				switch what {
				case 0:
					delete(tree, p)
					if edit && f.Mode[:3] == "100" && !isBinary(f.Data) {
						// not the same as it was
						g.uniq++
						f.Data = append(append([]byte{}, f.Data...), []byte(fmt.Sprintf("m%d\n", g.uniq))...)
					}
					tree[to+p[len(d):]] = f
				case 1:
					if f.Mode[:3] == "100" && !isBinary(f.Data) {
						g.uniq++
						f.Data = append(append([]byte{}, f.Data...), []byte(fmt.Sprintf("z%d\n", g.uniq))...)
						tree[p] = f
					}
				default:
					if chance(r, 0.7) {
						delete(tree, p)
					}
				}
			}
		}},
		{1.5, func() { g.create(tree) }},
		{5, func() { // edit
			p := g.someFile(tree)
			if p == "" || tree[p].Mode[:3] != "100" {
				return
			}
			f := tree[p]
			if isBinary(f.Data) {
				if chance(r, 0.5) {
					f.Data = g.newBinary()
				} else if chance(r, 0.3) {
					f.Data = nil
				} else {
					f.Data = g.newText()
				}
			} else if chance(r, 0.12*g.p.Bin) {
				f.Data = g.newBinary()
			} else if chance(r, 0.05) {
				f.Data = g.newText()
			} else {
				f.Data = g.editText(f.Data)
			}
			tree[p] = f
		}},
		{g.p.Rename, func() {
			p := g.someFile(tree)
			if p == "" {
				return
			}
			f := tree[p]
			delete(tree, p)
			np := g.freePath(tree)
			if q := similarName(r, p); chance(r, 0.15) && q != p && !conflicts(tree, q) {
				np = q
			}
			if np == "" {
				tree[p] = f
				return
			}
			if f.Mode[:3] == "100" && !isBinary(f.Data) && chance(r, 0.4) {
				f.Data = g.editText(f.Data)
			}
			if f.Mode[:3] == "100" && isBinary(f.Data) && chance(r, 0.2) {
				f.Data = append(append([]byte{}, f.Data...), 'z')
			}
			tree[np] = f
			if chance(r, 0.2) && !conflicts(tree, p) && p != np {
				tree[p] = File{Mode: "100644", Data: g.newText()}
			}
		}},
		{g.p.Rename * 0.2, func() { // swap
			a, b := g.someFile(tree), g.someFile(tree)
			if a == "" || a == b {
				return
			}
			tree[a], tree[b] = tree[b], tree[a]
		}},
		{g.p.Rename * 0.3, func() { // copy
			a := g.someFile(tree)
			np := g.freePath(tree)
			if a == "" || np == "" {
				return
			}
			tree[np] = tree[a]
		}},
		{g.p.Delete, func() {
			p := g.someFile(tree)
			if p != "" {
				delete(tree, p)
			}
		}},
		{g.p.Delete * 0.2, func() { // delete and create again with other name or content
			p := g.someFile(tree)
			if p == "" {
				return
			}
			delete(tree, p)
			np := p + "/in"
			if chance(r, 0.5) {
				np = g.freePath(tree)
			}
			if np != "" && !conflicts(tree, np) {
				tree[np] = File{Mode: "100644", Data: g.newText()}
			}
		}},
		{g.p.Special, func() {
			p := g.someFile(tree)
			if p == "" {
				return
			}
			f := tree[p]
			switch r.Intn(7) {
			case 0, 1, 2: // mode
				switch f.Mode {
				case "100644":
					f.Mode = "100755"
				case "100755":
					f.Mode = "100644"
				}
				if chance(r, 0.3) && f.Mode[:3] == "100" && !isBinary(f.Data) {
					f.Data = g.editText(f.Data)
				}
			case 3: // to symlink
				g.uniq++
				f = File{Mode: "120000", Data: []byte(fmt.Sprintf("target%d", g.uniq))}
			case 4: // to submodule
				f = File{Mode: "160000", Data: []byte(fmt.Sprintf("%040x", r.Int63()))}
			case 5: // back to file
				f = File{Mode: "100644", Data: g.newText()}
			case 6:
				if f.Mode == "120000" {
					g.uniq++
					f.Data = []byte(fmt.Sprintf("target%d", g.uniq))
				} else if f.Mode == "160000" {
					f.Data = []byte(fmt.Sprintf("%040x", r.Int63()))
				}
			}
			tree[p] = f
		}},
	}
	sum := 0.0
	for _, v := range w {
		sum += v.w
	}
	x := r.Float64() * sum
	for _, v := range w {
		if x < v.w {
			v.f()
			return
		}
		x -= v.w
	}
}

// mixText builds a merged version out of lines of several versions.
func (g *gen) mixText(vs [][]byte) []byte {
	r := g.r
	var res []string
	ts := []text{}
	for _, v := range vs {
		ts = append(ts, parseText(v))
	}
	if chance(r, 0.4) && len(ts) > 1 {
		// half of one, half of the other
		a, b := ts[0].lines, ts[1].lines
		res = append(append([]string{}, a[:len(a)/2]...), b[len(b)/2:]...)
	} else {
		max := 0
		for _, t := range ts {
			if len(t.lines) > max {
				max = len(t.lines)
			}
		}
		cur := r.Intn(len(ts))
		for i := 0; i < max; i++ {
			if chance(r, 0.3) {
				cur = r.Intn(len(ts))
			}
			if i < len(ts[cur].lines) {
				res = append(res, ts[cur].lines[i])
			}
			if chance(r, 0.05) {
				res = append(res, g.line())
			}
		}
	}
	return text{lines: res, nonl: chance(r, 0.1)}.bytes()
}

func (g *gen) mergeTree(trees []map[string]File) map[string]File {
	r := g.r
	res := map[string]File{}
	paths := map[string]bool{}
	for _, t := range trees {
		for p := range t {
			paths[p] = true
		}
	}
	var ps []string
	for p := range paths {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	mode := r.Intn(5) // 0 first parent only, 1 last parent only, others mix
	for _, p := range ps {
		var have []File
		for _, t := range trees {
			if f, ok := t[p]; ok {
				have = append(have, f)
			}
		}
		var pick *File
		switch {
		case mode == 0:
			if f, ok := trees[0][p]; ok {
				pick = &f
			}
		case mode == 1:
			if f, ok := trees[len(trees)-1][p]; ok {
				pick = &f
			}
		default:
			f := have[r.Intn(len(have))]
			pick = &f
			if chance(r, 0.35) {
				// combine
				var vs [][]byte
				for _, h := range have {
					if h.Mode[:3] == "100" && !isBinary(h.Data) {
						vs = append(vs, h.Data)
					}
				}
				if len(vs) > 1 {
					f := File{Mode: "100644", Data: g.mixText(vs)}
					pick = &f
				} else if len(vs) == 1 {
					f := File{Mode: "100644", Data: g.editText(vs[0])}
					pick = &f
				}
			}
			if chance(r, 0.1) && len(have) == len(trees) || chance(r, 0.4) && len(have) < len(trees) {
				pick = nil
			}
		}
		if pick != nil && !conflicts(res, p) {
			res[p] = *pick
		}
	}
	if mode > 1 {
		for chance(r, 0.35) {
			g.op(res)
		}
	}
	return res
}

func (g *gen) meta(c *Commit, i int) {
	r := g.r
	base := int64(1500000000)
	switch g.p.DateMode {
	case 0:
		c.CTime = base + int64(i)*60
	case 1:
		c.CTime = base
	case 2:
		c.CTime = base + int64(r.Intn(100000))
	case 3:
		c.CTime = base - int64(i)*60
	}
	c.ATime = c.CTime
	c.ATz, c.CTz = "+0000", "+0000"
	c.AName, c.AEmail = "Author", "author@example.com"
	c.CName, c.CEmail = "Committer", "committer@example.com"
	c.Msg = fmt.Sprintf("msg %d", i)
	if g.p.WeirdMeta {
		names := []string{"A", "Jo Doe", "J\u00f6rg M\u00fcller", "x (y)", "!SHA: 0123", "commit 1", "a@b", "'q'", "\"dq\"", "tab\tname", "日本", "--", "O'Neil, Jr.", "a  b", "diff --git a/x b/x", "x = y", "nb\u00a0", "\u3000x", "very" + strings.Repeat("long", 60)}
		emails := []string{"a@b.c", "", "noat", "a+b@c", "é@x", "!Date: x", "a b@c", "[x]@y"}
		tzs := []string{"+0000", "-0800", "+0530", "+1300", "-1200", "+0001"}
		c.AName = names[r.Intn(len(names))]
		c.AEmail = emails[r.Intn(len(emails))]
		c.CName = names[r.Intn(len(names))]
		c.CEmail = emails[r.Intn(len(emails))]
		c.ATime = base + int64(r.Intn(300000000))
		if chance(r, 0.1) {
			c.ATime = 100000 + int64(r.Intn(100000))
		}
		if chance(r, 0.04) {
			// beyond 32 bits, the year 5138 and the year 10000
			c.ATime = []int64{0, 1, 1<<31 - 1, 1 << 31, 1 << 32, 99999999999, 253402300799, 253402300800, 999999999999}[r.Intn(9)]
		}
		if chance(r, 0.15) {
			// offsets found in commits made by broken tools
			tzs = []string{"+51800", "-0000", "+5000", "+9999", "-2400", "+1475", "-12345", "+2360", "-0007", "+7", "-70"}
		}
		c.ATz = tzs[r.Intn(len(tzs))]
		c.CTz = tzs[r.Intn(len(tzs))]
		subj := []string{"", "plain", "!SHA: x", "!Parents: y", "!Message: z", "commit 0123456789012345678901234567890123456789", "diff --git a/a b/b", "Merge: a b", ":100644 100644 a b M\tx", "1\t2\tx", "\ttab", "  spaces  ", "é日本", "(from abc)", "x\ny\n\nz", "x\n\nbody diff --git\n\ndiff --git a/a b/a\n@@ -1 +1 @@\n", "\n\nlate", "s" + strings.Repeat("ubject", 20), "-", "@@ -1 +1 @@", "trail \n", "line1\nline2\nline3\n\n!SHA: 1\ncommit 2\n", "tabs\tin\tsubject", "notes\n\nNotes:\n    x"}
		c.Msg = subj[r.Intn(len(subj))]
		if g.p.LongMsg > 0 && chance(r, 0.4) {
			n := r.Intn(g.p.LongMsg)
			switch r.Intn(4) {
			case 0:
				c.Msg = strings.Repeat("subject ", n/8+1) + "x"
			case 1:
				c.Msg = "s\n\n" + strings.Repeat("line of the body\n", n/17+1)
			case 2:
				c.Msg = strings.Repeat("subject\n", n/80+1) + "\nx\n"
			case 3:
				c.AName = strings.Repeat("name", n/400+1)
				c.CEmail = strings.Repeat("email", n/400+1) + "@x"
			}
		}
		if chance(r, 0.1) {
			c.Broken = 8 + r.Intn(24)
		}
		if chance(r, 0.03) {
			c.Msg = "long" + strings.Repeat(" subject", 9000)
		}
	}
}

// sameParent makes one of the parents of the commit its parent once more, as some tools do.
func (g *gen) sameParent(c *Commit) {
	p := c.Parents[g.r.Intn(len(c.Parents))]
	k := g.r.Intn(len(c.Parents) + 1)
	c.Parents = append(c.Parents[:k:k], append([]int{p}, c.Parents[k:]...)...)
}

// Generate makes a random history.
func Generate(r *rand.Rand, p Profile) *Repo {
	g := &gen{r: r, p: p, repo: &Repo{Refs: map[string]int{}}}
	if g.p.ParP == 0 {
		g.p.ParP = 0.35
	}
	if g.p.KeepHeads == 0 {
		g.p.KeepHeads = 4
	}
	for i := 0; i < p.Commits; i++ {
		c := &Commit{}
		g.meta(c, i)
		switch {
		case i == 0 || chance(r, p.RootP):
			c.Tree = map[string]File{}
			if !chance(r, 0.1) {
				for k := 0; k < 1+r.Intn(4); k++ {
					g.create(c.Tree)
				}
				if chance(r, 0.3) {
					g.change(c.Tree)
				}
			}
			g.heads = append(g.heads, i)
		case len(g.heads) > 1 && chance(r, p.MergeP):
			n := 2
			for n < p.MaxPar && n < len(g.heads) && chance(r, g.p.ParP) {
				n++
			}
			perm := r.Perm(len(g.heads))[:n]
			trees := []map[string]File{}
			for _, k := range perm {
				c.Parents = append(c.Parents, g.heads[k])
				trees = append(trees, g.repo.Commits[g.heads[k]].Tree)
			}
			// sometimes one of the parents is an older commit
			if chance(r, 0.1) && i > 2 {
				o := r.Intn(i)
				dup := false
				for _, q := range c.Parents {
					if q == o {
						dup = true
					}
				}
				if !dup {
					c.Parents[len(c.Parents)-1] = o
					trees[len(trees)-1] = g.repo.Commits[o].Tree
				}
			}
			c.Tree = g.mergeTree(trees)
			if chance(r, 0.05) {
				g.sameParent(c)
			}
			if chance(r, 0.5) {
				// replace all merged heads
				drop := map[int]bool{}
				for _, k := range perm {
					drop[k] = true
				}
				var nh []int
				for k, h := range g.heads {
					if !drop[k] {
						nh = append(nh, h)
					}
				}
				g.heads = append(nh, i)
			} else {
				g.heads[perm[0]] = i
			}
		default:
			k := r.Intn(len(g.heads))
			par := g.heads[k]
			fork := chance(r, p.ForkP)
			if fork && chance(r, 0.3) {
				par = r.Intn(i)
			}
			c.Parents = []int{par}
			c.Tree = cloneTree(g.repo.Commits[par].Tree)
			if !chance(r, p.EmptyP) {
				g.change(c.Tree)
			}
			if p.MergeP > 0 && chance(r, 0.02) {
				g.sameParent(c)
			}
			if fork {
				g.heads = append(g.heads, i)
				if len(g.heads) > g.p.KeepHeads && g.p.MergeP > 0 {
					// forget one
					x := r.Intn(len(g.heads) - 1)
					g.heads = append(g.heads[:x], g.heads[x+1:]...)
				}
			} else {
				g.heads[k] = i
			}
		}
		g.repo.Commits = append(g.repo.Commits, c)
	}
	// often join what is left
	if p.MergeP > 0 && chance(r, 0.4) {
		for len(g.heads) > 1 {
			n := 2
			if p.MaxPar > 2 && len(g.heads) > 2 {
				n = 3
			}
			c := &Commit{}
			g.meta(c, len(g.repo.Commits))
			var trees []map[string]File
			for _, hd := range g.heads[:n] {
				c.Parents = append(c.Parents, hd)
				trees = append(trees, g.repo.Commits[hd].Tree)
			}
			c.Tree = g.mergeTree(trees)
			g.heads = append(append([]int{}, g.heads[n:]...), len(g.repo.Commits))
			g.repo.Commits = append(g.repo.Commits, c)
		}
	}
	g.repo.Head = "refs/heads/master"
	hi := g.heads[r.Intn(len(g.heads))]
	if chance(r, 0.8) {
		for _, x := range g.heads {
			if len(g.repo.reach(x)) > len(g.repo.reach(hi)) {
				hi = x
			}
		}
	}
	g.repo.Refs["refs/heads/master"] = hi
	n := 0
	for i := range g.repo.Commits {
		if i != hi && g.hasNoChild(i) {
			n++
			g.repo.Refs[fmt.Sprintf("refs/heads/br%d", n)] = i
		}
	}
	return g.repo
}

func (g *gen) hasNoChild(i int) bool {
	for _, c := range g.repo.Commits {
		for _, p := range c.Parents {
			if p == i {
				return false
			}
		}
	}
	return true
}

func (g *gen) change(tree map[string]File) {
	n := 1 + g.r.Intn(g.p.OpsPerComm)
	for i := 0; i < n; i++ {
		before := cloneTree(tree)
		for try := 0; try < 10; try++ {
			g.op(tree)
			if !sameTree(before, tree) {
				break
			}
		}
	}
}

// RandomProfile draws a profile.
func RandomProfile(r *rand.Rand) Profile {
	p := Profile{
		Commits: 6 + r.Intn(22), Paths: plainPaths, MergeP: 0.25, RootP: 0.03, ForkP: 0.25, MaxPar: 2, EmptyP: 0.05,
		Bin: 0.3, Special: 0.3, Rename: 0.8, Delete: 0.6, Hostile: 0.03, Repeat: 0.15, MaxLines: 14, BigFileP: 0.04, CR: 0.02, OpsPerComm: 3, DateMode: 0,
	}
	pick := func(vs ...float64) float64 { return vs[r.Intn(len(vs))] }
	p.MergeP = pick(0, 0.1, 0.25, 0.4)
	p.ForkP = pick(0.1, 0.25, 0.5)
	p.RootP = pick(0, 0, 0.03, 0.1)
	p.MaxPar = []int{2, 2, 3, 5}[r.Intn(4)]
	p.EmptyP = pick(0, 0.05, 0.2)
	p.Bin = pick(0, 0.2, 1, 3)
	p.Special = pick(0, 0.2, 1)
	p.Rename = pick(0, 0.3, 1, 2.5)
	p.Delete = pick(0.2, 0.8, 2)
	p.Hostile = pick(0, 0, 0.1, 0.5)
	p.Repeat = pick(0, 0.1, 0.4, 0.8)
	p.MaxLines = []int{3, 8, 20, 40}[r.Intn(4)]
	p.BigFileP = pick(0, 0, 0.1)
	p.CR = pick(0, 0, 0.1, 0.6)
	p.LongLineP = pick(0, 0, 0, 0.02)
	p.DateMode = []int{0, 0, 1, 2, 3}[r.Intn(5)]
	p.OpsPerComm = []int{1, 2, 4, 7}[r.Intn(4)]
	p.WeirdMeta = chance(r, 0.3)
	p.KeepHeads = []int{2, 3, 5, 8}[r.Intn(4)]
	if chance(r, 0.3) {
		n := 3 + r.Intn(6)
		p.Paths = nil
		for i := 0; i < n; i++ {
			p.Paths = append(p.Paths, weirdPaths[r.Intn(len(weirdPaths))])
		}
		p.Paths = append(p.Paths, "a.go", "dir/d.go")
	}
	return p
}

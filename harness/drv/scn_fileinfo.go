package main

import (
	"context"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/boyter/scc/processor"
	"github.com/pinpt/ripsrc/ripsrc/fileinfo"
	"github.com/pinpt/ripsrc/ripsrc/history3/incblame"
	enry "gopkg.in/src-d/enry.v1"
)

func init() {
	kinds["files"] = scnFiles
}

var bg = context.Background()

var codePaths = []string{
	"main.go", "lib/x.py", "README.md", "LICENSE", "LICENSE.txt", "doc/COPYING", "UNLICENSE", "x/LICENCE.md", "LICENSE-MIT", "src/vendor/a.js", "vendor/x.go", "src/vendored/Godeps/x.go", "node_modules/a/b.js", "a/node_modules/c.js",
	".gitignore", ".travis.yml", "config.json", "app.yml", "x.min.js", "docs/x.md", "src/third_party/x.c", "third_party/x.c", "deps/x.c", "src/deps/x.c", "a.unknownext", "noext", "Makefile", "x.h", "a/b/.hidden.go", ".dot/x.go", "test.sql", "f.html", "data.xml", "a.png",
	"Gemfile", "x.gemspec", "go.mod", "mygo.mod", "cache/x.java", "src/com/foo/android/cache/Disk.java", "com/cache/Disk.java", "jquery.js", "src/jquery-1.2.js", "bower_components/x.js", "x.cs", "x.rb", "x.sh", "x.pl", "t.tex", "x.iml", "gradlew", "src/gradlew", "x.ini", "x.toml", "src/x.ini", "fastlane/Appfile", "a/fastlane/Appfile",
	"main.Go", "MAIN.GO", "x.JSON", "dist/x.js", "x.css", "src/x.min.css", "VERSION", "MYVERSION.go", "CHANGES.c", "vendor.go", "x_vendor/y.go", "srcs/vendor.c", "src/a.ts", "x.out", "a.log", "tests/fixtures/x.go", "Sparkle/x.m",
}

var codeLines = []string{"func f() {", "}", "\treturn 1", "if (x) {", "  x := 1 // comment", "\"str /* not\"", "'a'", "x = \"//\"", "", "   ", "\t", "import os", "class A:", "DO NOT EDIT", "GENERATED = 1", "x // GENERATED", "s = \"\"\"", "`", "begin", "<a>", "int main(void)", "\\", "\"", "end"}
var commentLines = []string{"// comment", "# comment", "/* a", "*/", " * b", "/* c */", "-- d", "<!-- e", "-->", ";; f", "% g", "''' h", "// do not edit", "# generated", "/** doc */", "//", "{- x -}", "=begin", "=end"}
var markerLines = []string{"// Code GENERATED", "# DO NOT EDIT", "/* machine generated */", "// DO NOT MODIFY this", "-- DO NOT EDIT", "<!-- DO NOT EDIT -->", " * GENERATED", "DO NOT EDIT", "// xGENERATEDx", "// Machine generated", "// DO NOT  EDIT"}

var exclusionRe = func() *regexp.Regexp {
	var res []string
	for _, l := range strings.Split(exclusionList, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		res = append(res, "(?:"+strings.Replace(strings.Replace(l, ".", "\\.", -1), "*", "(.*?)", -1)+")")
	}
	return regexp.MustCompile(strings.Join(res, "|"))
}()

// names which could be of a license
var licenseName = regexp.MustCompile(`(LICENSE|LICENCE|README|COPYING|LICENSE-[^\n]*|UNLICENSE|UNLICENCE)(\.md|\.txt)?$`)

var markerRe = regexp.MustCompile("GENERATED|DO NOT EDIT|DO NOT MODIFY|machine generated")

type lineKinds struct{ res []processor.LineType }

func (s *lineKinds) ProcessLine(job *processor.FileJob, line int64, t processor.LineType) bool {
	s.res = append(s.res, t)
	return true
}

func facts(path string, b *incblame.Blame) obj {
	var lines [][]byte
	for _, l := range b.Lines {
		lines = append(lines, l.Line)
	}
	return fileFacts(path, lines)
}

// fileFacts are facts about the file which decide if it is skipped.
func fileFacts(path string, lines [][]byte) obj {
	var content []byte
	wide := 0
	for _, l := range lines {
		content = append(content, l...)
		content = append(content, '\n')
		if wide == 0 && len(l) > 1096 {
			wide = len(l)
		}
	}
	names, conf := []string{}, float32(0)
	if len(content) <= 1000000 && licenseName.MatchString(path) {
		n, c := licenseNames(path, content)
		names, conf = append(names, n...), c
	}
	lic := len(names) > 0
	lang := ""
	if len(content) <= 1000000 && wide == 0 {
		lang = enry.GetLanguage(path, content)
	}
	fl := ""
	cx, wcx := int64(0), 0.0
	gen := 0 // number of the line with the marker
	if lang != "" {
		k := &lineKinds{}
		job := &processor.FileJob{Filename: path, Language: lang, Content: content, Callback: k}
		processor.CountStats(job)
		cx, wcx = job.Complexity, job.WeightedComplexity
		for i, t := range k.res {
			switch t {
			case processor.LINE_BLANK:
				fl += "b"
			case processor.LINE_CODE:
				fl += "c"
			case processor.LINE_COMMENT:
				fl += "m"
				if gen == 0 && i < len(lines) && markerRe.Match(lines[i]) {
					gen = i + 1
				}
			}
		}
	}
	fls := []string{}
	for _, c := range fl {
		fls = append(fls, string(c))
	}
	return obj{"size": len(content), "lic": lic, "cfg": enry.IsConfiguration(path), "dot": enry.IsDotFile(path), "excl": exclusionRe.MatchString(path), "vend": enry.IsVendor(path), "src": strings.HasPrefix(path, "src/"),
		"nl": len(lines), "wide": wide, "known": lang != "", "lang": lang, "gen": gen, "fl": fls, "cx": cx, "wcx": fmt.Sprint(wcx), "licn": names, "licc": fmt.Sprint(conf)}
}

// licenseObs is the name and the confidence.
func licenseObs(l *fileinfo.License) []string {
	if l == nil {
		return []string{"", "0"}
	}
	return []string{l.Name, fmt.Sprint(l.Confidence)}
}

var skipPatterns = []struct {
	code string
	re   *regexp.Regexp
}{
	{"size", regexp.MustCompile(`^File size was (\d+)K which exceeds limit of (1000)K$`)},
	{"lines", regexp.MustCompile(`^File has more than (40000) lines$`)},
	{"wide", regexp.MustCompile(`^File has a line width of (\d+) which is greater than max of (1096)$`)},
	{"cfg", regexp.MustCompile(`^File was a config file$`)},
	{"dot", regexp.MustCompile(`^File was a dot file$`)},
	{"excl", regexp.MustCompile(`^File was on an exclusion list$`)},
	{"vend", regexp.MustCompile(`^File was a vendored file$`)},
	{"lic", regexp.MustCompile(`^File is a license file$`)},
	{"lang", regexp.MustCompile(`^Language was unknown$`)},
	{"gen", regexp.MustCompile(`^file was a generated file$`)},
	{"removed", regexp.MustCompile(`^File was removed$`)},
	{"none", regexp.MustCompile(`^$`)},
}

// skipCode returns the kind of the reason and the number in it.
func skipCode(s string) []interface{} {
	for _, p := range skipPatterns {
		m := p.re.FindStringSubmatch(s)
		if m == nil {
			continue
		}
		n := 0
		if len(m) > 2 {
			var err error
			n, err = strconv.Atoi(m[1])
			must(err)
		}
		return []interface{}{p.code, n}
	}
	return []interface{}{"other", 0}
}

type filesArg struct {
	Combos [][]string `json:"combos"`
	N      int        `json:"n"`
}

const mitText = `MIT License

Copyright (c) 2019 X

Permission is hereby granted, free of charge, to any person obtaining a copy
of this software and associated documentation files (the "Software"), to deal
in the Software without restriction, including without limitation the rights
to use, copy, modify, merge, publish, distribute, sublicense, and/or sell
copies of the Software, and to permit persons to whom the Software is
furnished to do so, subject to the following conditions:

The above copyright notice and this permission notice shall be included in all
copies or substantial portions of the Software.

THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR
IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,
FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE
AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER
LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING FROM,
OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
SOFTWARE.`

// realize makes a path and lines which should have the wanted facts.
func (e *Env) realize(want map[string]bool) (path string, lines [][]byte) {
	r := e.R
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	dir := ""
	if want["src"] {
		dir = "src/"
	}
	if want["vend"] {
		dir += pick("deps/", "cache/", "third_party/", "bower_components/", "extern/", "dist/", "vendors/")
	} else {
		dir += pick("", "", "pkg/", "a/b/", "lib/", "xsrc/", "other/src/")
	}
	if want["excl"] {
		dir += pick("__pycache__/", "node_modules/", ".github/", ".vscode/", "Godeps/", "proguard/")
	}
	name := ""
	switch {
	case want["lic"]:
		name = pick("LICENSE", "LICENSE.md", "COPYING", "LICENCE.txt", "UNLICENSE", "LICENSE-MIT")
	case want["cfg"] && want["dot"]:
		name = pick(".x.json", ".eslintrc.yml", ".a.ini")
	case want["cfg"]:
		name = pick("x.json", "app.yml", "a.ini", "t.toml", "x.yaml")
	case want["dot"]:
		name = pick(".x.go", ".profile", ".a.py")
	case !want["known"]:
		name = pick("data.qqq", "x.unknown1", "zz.zzq")
	default:
		name = pick("main.go", "x.py", "a.c", "b.rb", "x.java", "x.js")
	}
	if want["dot"] && want["lic"] {
		name = "." + name
	}
	path = dir + name
	add := func(s string) { lines = append(lines, []byte(s)) }
	if want["lic"] {
		text := mitText
		if chance(r, 0.3) {
			text = lgplText
		}
		for _, l := range strings.Split(text, "\n") {
			add(l)
		}
	} else {
		for i := 0; i < r.Intn(5); i++ {
			add(fmt.Sprintf("x%d = 1", i))
		}
		if want["gen"] {
			add(pick("// Code GENERATED", "# DO NOT EDIT", "/* machine generated */", "// DO NOT MODIFY"))
			for i := 0; i < r.Intn(3); i++ {
				add(fmt.Sprintf("y%d = 1", i))
			}
		}
	}
	if want["wide"] {
		if chance(r, 0.4) && !want["lic"] {
			for i := r.Intn(30000); i > 0; i-- {
				add("")
			}
		}
		at := r.Intn(len(lines) + 1)
		if chance(r, 0.5) {
			at = len(lines)
		}
		w := []byte(strings.Repeat("w", []int{1097, 1098, 5000}[r.Intn(3)]))
		if chance(r, 0.5) {
			// less characters than bytes
			w = []byte(strings.Repeat(pick("\u00e9", "\u65e5", "\U0001f600"), []int{549, 700, 1096}[r.Intn(3)]))
		}
		lines = append(lines[:at:at], append([][]byte{w}, lines[at:]...)...)
	} else if chance(r, 0.3) && !want["lic"] {
		add(pick(strings.Repeat("w", 1096), strings.Repeat("w", 1095), strings.Repeat("\u00e9", 548), strings.Repeat("\U0001f600", 274), strings.Repeat("\xff", 1096)))
	}
	size := 0
	for _, l := range lines {
		size += len(l) + 1
	}
	switch {
	case want["lines"]:
		n := []int{40001, 40002, 41000}[r.Intn(3)]
		for len(lines) < n {
			add("")
			size++
		}
	case chance(r, 0.2) && !want["lic"]:
		n := []int{40000, 39999}[r.Intn(2)]
		for len(lines) < n {
			add("")
			size++
		}
	}
	switch {
	case want["size"]:
		n := []int{1000001, 1000002, 1000999, 1001000, 1500000}[r.Intn(5)]
		if want["lines"] {
			// make lines longer
			for i := range lines {
				if size >= n {
					break
				}
				if len(lines[i]) == 0 {
					k := 1000
					if n-size < k {
						k = n - size
					}
					lines[i] = []byte(strings.Repeat("s", k))
					size += k
				}
			}
			break
		}
		for size < n {
			k := 999
			if n-size-1 < k {
				k = n - size - 1
			}
			add(strings.Repeat("s", k))
			size += k + 1
		}
	case chance(r, 0.1) && !want["lic"] && !want["lines"] && !want["gen"]:
		n := []int{1000000, 999999}[r.Intn(2)]
		for size < n {
			k := 999
			if n-size-1 < k {
				k = n - size - 1
			}
			add(strings.Repeat("s", k))
			size += k + 1
		}
	}
	return
}

// scnFiles makes files with the wanted facts, and asks if they are skipped. One process is used for all of them, and asked again in a different order.
func scnFiles(e *Env) {
	var a filesArg
	e.arg(&a)
	p := fileinfo.New()
	type f struct {
		path  string
		lines [][]byte
	}
	var fs []f
	for _, c := range a.Combos {
		want := map[string]bool{}
		for _, x := range c {
			want[x] = true
		}
		path, lines := e.realize(want)
		fs = append(fs, f{path, lines})
	}
	for i := 0; i < a.N; i++ {
		// random paths with random content, some of them more than once
		path := codePaths[e.R.Intn(len(codePaths))]
		if len(fs) > 0 && chance(e.R, 0.3) {
			path = fs[e.R.Intn(len(fs))].path
		}
		if chance(e.R, 0.2) {
			path = []string{"src/", "lib/", "vendor/", "x/", "SRC/", "/src/", "a/src/"}[e.R.Intn(7)] + path
		}
		g := &gen{r: e.R, p: Profile{Code: 0.9, CommentP: 0.3, Hostile: 0.1}}
		var lines [][]byte
		for k := 0; k < e.R.Intn(12); k++ {
			lines = append(lines, []byte(g.line()))
		}
		fs = append(fs, f{path, lines})
	}
	ids := newIds()
	for round := 0; round < 2; round++ {
		for _, k := range e.R.Perm(len(fs)) {
			x := fs[k]
			var content []byte
			for _, l := range x.lines {
				content = append(append(content, l...), '\n')
			}
			facts := fileFacts(x.path, x.lines)
			mark("run_begin")
			info, reason := p.GetInfo(fileinfo.InfoArgs{FilePath: x.path, Lines: x.lines, Content: content})
			mark("run_end")
			e.T.emit(obj{"e": "info", "p": ids.get(x.path), "path": x.path, "k": ids.get(x.path + "\x00" + string(content)), "x": facts, "skip": skipCode(reason), "lang": info.Language, "lic": licenseObs(info.License)})
		}
	}
}

package main

import (
	"strconv"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// glob is what a pattern of a file name means: a star is any text.
func glob(pat, name string) bool {
	if pat == "" {
		return name == ""
	}
	if pat[0] == '*' {
		ok := false
		for i := 0; i <= len(name); i++ {
			ok = sym.Or(ok, glob(pat[1:], name[i:]))
		}
		return ok
	}
	if name == "" {
		return false
	}
	return sym.And(name[0] == pat[0], glob(pat[1:], name[1:]))
}

// inName is text that may stand in the name of a file or directory.
func inName(n string, lo, hi int) string {
	s := sym.String(n, lo, hi)
	for i := 0; i < len(s); i++ {
		c := s[i]
		sym.Assume(sym.Or(sym.Or(c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z'), sym.Or(c >= '0' && c <= '9', sym.Or(c == '_', c == '-'))))
	}
	return s
}

// a case: the source means the files for which want holds.
func check(over, wd string, files []file, sources func(top string) []string, want []bool) {
	got, err := run(over, wd, files, &codegen.Config{}, sources)
	sym.Assert(err == nil, "generates")
	for i := range files {
		sym.Assert(got[i] == sym.FixBool(want[i]), "exactly-the-files-named")
	}
	sym.Cover("generated")
}

var dirNames = []string{"models", "m", "v1", "my-app", "my_app", "a.b", "Models", "1a", "x/y", "x/.h/y"}

// K04_Dir: a directory, named in every way.
func K04_Dir() {
	d := dirNames[sym.Choose("dir", len(dirNames))]
	wd := []string{"w", "w/v", ""}[sym.Choose("wd", 3)]
	in := join(wd, d)
	files := []file{
		{in, "a" + inName("n", 1, 1) + ".go"},
		{in, "b.c.go"},
		{join(in, "sub"), "a.go"},
		{in + "x", "a.go"},
		{wd, "a.go"},
	}
	want := []bool{true, true, false, false, false}
	var src string
	abs := false
	switch sym.Choose("form", 8) {
	case 0:
		src = d
	case 1:
		src = "./" + d
	case 2:
		src = d + "/"
	case 3:
		src, abs = "/"+in, true
	case 4:
		src = "."
		want = []bool{false, false, false, false, true}
	case 5: // by way of the parent
		sym.Assume(wd != "")
		src = "../" + wd[lastSlash(wd)+1:] + "/" + d
	case 7: // an unclean path
		src, abs = "//"+in+"/../"+in[lastSlash(in)+1:]+"/", true
	case 6:
		src = " " + d + " "
	}
	check("", wd, files, func(top string) []string {
		if abs {
			return []string{top + src}
		}
		return []string{src}
	}, want)
}

func lastSlash(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return i
		}
	}
	return -1
}

// K04_File: one file, or one that is not there.
func K04_File() {
	d := dirNames[sym.Choose("dir", len(dirNames))]
	wd := []string{"w", "w/v"}[sym.Choose("wd", 2)]
	in := join(wd, d)
	n := "a" + inName("n", 1, 1) + ".go"
	files := []file{{in, n}, {in, "b.go"}, {in, "a.b.go"}, {join(in, "sub"), "b.go"}, {wd, "b.go"}}
	srcs := []string{d + "/b.go", "./" + d + "/b.go", d + "/a.b.go", d + "/none.go", "none/b.go", "b.go"}
	wants := []int{1, 1, 2, -1, -1, 4}
	k := sym.Choose("form", len(srcs))
	want := make([]bool, len(files))
	for i := range want {
		want[i] = i == wants[k]
	}
	check("", wd, files, func(string) []string { return []string{srcs[k]} }, want)
}

var globs = []string{"*.go", "*", "user*.go", "user*", "*_model.go", "u*r.go", "*r*.go"}

// K04_Glob: the files of a directory whose names are like a pattern.
func K04_Glob() {
	d := dirNames[sym.Choose("dir", len(dirNames))]
	g := globs[sym.Choose("glob", len(globs))]
	wd := "w"
	if d == "models" && sym.Choose("here", 2) == 1 {
		d = ""
	}
	in := join(wd, d)
	pre := []string{"user", "u", "U", "a.", "x_mode"}[sym.Choose("pre", 5)]
	post := []string{"", "r", "_model", ".x"}[sym.Choose("post", 4)]
	n := pre + inName("n", 1, sym.B(1, 2)) + post
	files := []file{{in, n + ".go"}, {join(in, "sub"), "user_r_model.go"}, {join(in, "user_r_model"), "z.go"}, {in, "zz.go"}}
	over := ""
	if d == "models" {
		over = []string{"", "a+b", "P (1)", "[x]", "a.b"}[sym.Choose("over", 5)]
	}
	src := join(d, g)
	if g[len(g)-1] == '*' {
		g += ".go"
	}
	want := []bool{glob(g, n+".go"), false, false, glob(g, "zz.go")}
	check(over, wd, files, func(string) []string { return []string{src} }, want)
}

// K04_Deep: every file below a directory.
func K04_Deep() {
	d := []string{"models", "v1", "a.b", ""}[sym.Choose("dir", 4)]
	wd := "w"
	in := join(wd, d)
	g := []string{"", "/*", "/*.go", "/user*.go", "/*_model.go"}[sym.Choose("glob", 5)]
	n := []string{"user", "U", "a.", "x_mode"}[sym.Choose("pre", sym.B(3, 4))] + inName("n", 1, 1) + []string{"", "_model"}[sym.Choose("post", 2)]
	sub := "e" + inName("sub", 0, sym.B(0, 1))
	deep := []string{"f", "user_V1", "a.b", "V1", "b_model"}[sym.Choose("deep", sym.B(3, 5))]
	files := []file{
		{in, n + ".go"},
		{join(in, sub), n + ".go"},
		{join(in, sub, deep), n + ".go"},
		{join(in, deep), "zz.go"},
		{in + "x", n + ".go"},
		{"other", n + ".go"},
	}
	pat := g
	if pat == "" || pat == "/*" {
		pat = "/*.go"
	}
	m, z := glob(pat[1:], n+".go"), glob(pat[1:], "zz.go")
	want := []bool{m, m, m, z, d == "" && false, false}
	src := join(d, "**") + g
	over := ""
	if d == "" && g == "" {
		over = []string{"", "a+b", "P (1)", "[x]", "a.b"}[sym.Choose("over", 5)]
	}
	if sym.Choose("dot", 2) == 1 {
		src = "./" + src
	}
	check(over, wd, files, func(string) []string { return []string{src} }, want)
}

// K04_Several: several sources, also of one directory.
func K04_Several() {
	var files []file
	for _, d := range []string{"w/m", "w/m/s", "w/n"} {
		for _, n := range []string{"a", "b"} {
			files = append(files, file{d, n + ".go"})
		}
	}
	pats := []string{"m", "m/a.go", "m/b.go", "m/b*.go", "m/**/*.go", "n/a.go", "m/s/b.go", "none", "**/a.go"}
	means := [][]int{{0, 1}, {0}, {1}, {1}, {0, 1, 2, 3}, {4}, {3}, {}, {0, 2, 4}}
	want := make([]bool, len(files))
	var srcs []string
	for i, n := 0, 1+sym.Choose("n", 3); i < n; i++ {
		k := sym.Choose("src"+strconv.Itoa(i), len(pats))
		srcs = append(srcs, pats[k])
		for _, j := range means[k] {
			want[j] = true
		}
	}
	check("", "w", files, func(string) []string { return srcs }, want)
}

// K04_Own: the directories code goes to are no sources, and neither is generated code alone.
func K04_Own() {
	name := []string{"", "gen.go"}[sym.Choose("name", 2)]
	gen := name
	if gen == "" {
		gen = codegen.DefaultGeneratedFile
	}
	op := []string{"", "ops"}[sym.Choose("op", 2)]
	cfg := &codegen.Config{Exec: codegen.ExecConfig{Filename: name}}
	d := []string{"", "x/db"}[sym.Choose("db", 2)]
	if d != "" || op != "" {
		cfg.Database = &codegen.DatabaseConfig{Dir: d}
		if op != "" {
			cfg.Database.Operator = &codegen.DatabaseOperatorConfig{Dir: op}
		}
	}
	if d == "" {
		d = "db"
	}
	if op == "" {
		op = d
	}
	own := func(p string) bool { return p == d || p == op }
	var files []file
	var want []bool
	for _, p := range []string{"", "db", "x/db", "ops", "db/in", "m/db"} {
		files = append(files, file{join("w", p), "a.go"})
		want = append(want, !own(p))
	}
	// what only looks like generated code
	like := inName("like", 1, 1) + gen
	files = append(files, file{"w/like", like}, file{"w/last", gen[:len(gen)-3] + "_x.go"})
	want = append(want, true, true)
	got, err := run("", "w", files, cfg, func(string) []string { return []string{"**/*.go"} })
	sym.Assert(err == nil, "generates")
	for i := range files {
		sym.Assert(got[i] == want[i], "own-code-is-no-source")
	}
	sym.Cover("generated")
}

// Package src checks which Go files a configuration makes code for.
package main

import (
	"errors"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/Masterminds/semver/v3"
	"github.com/go-playground/validator/v10"
	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"
	"github.com/si3nloong/sqlgen/cmd/sqlgen/internal/compiler"
	"github.com/si3nloong/sqlgen/zzverif/sym"
)

// A file of the tree: a Go file which declares the struct T<n>, n its position.
type file struct {
	dir, name string // the directory relative to the top, "" for the top itself
}

type world struct {
	top   string // the parent of the working directory's parents
	wd    string // relative to the top
	files []file

	// what became of the run
	code    map[string][]int // directory → structs there is code for
	matched []int
	name    string // of generated files
	removed bool   // another file than the generated ones was removed
	written []written
	gone    []string // files removed

	config   *codegen.Config // what the configuration file sets, nil without one
	cfgName  string
	comments bool // a file which sets nothing has a comment
}

// written is a file of the database code.
type written struct{ what, pkg, path string }

var w *world

func (w *world) path(f file) string { return join(w.top, f.dir, f.name) }

func join(a ...string) string {
	s := ""
	for _, x := range a {
		if x != "" {
			if s != "" {
				s += "/"
			}
			s += x
		}
	}
	return s
}

// run generates code in the tree and returns for each file whether there is code for its struct.
func run(over, wd string, files []file, cfg *codegen.Config, sources func(top string) []string) ([]bool, error) {
	w = &world{top: join("/tmp/gsrc1234567", over), wd: wd, files: files, code: map[string][]int{}}
	cfg.SkipModTidy = true
	if w.name = cfg.Exec.Filename; w.name == "" {
		w.name = codegen.DefaultGeneratedFile
	}
	got := make([]bool, len(files))
	if sym.Symbolic() {
		cfg.Source = sources(w.top)
		err := codegen.Generate(cfg)
		for _, is := range w.code {
			for _, i := range is {
				got[i] = true
			}
		}
		sym.Assert(!w.removed, "removes-only-generated-files")
		return got, err
	}
	dir, err := os.MkdirTemp("", "gsrc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if dir, err = filepath.EvalSymlinks(dir); err != nil {
		panic(err)
	}
	dir = join(dir, over)
	w.top = dir
	put := func(p, text string) {
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err == nil {
			err = os.WriteFile(p, []byte(text), 0o644)
		}
		if err != nil {
			panic(err)
		}
	}
	put(dir+"/go.mod", "module m\n\ngo 1.23\n")
	for i, f := range files {
		put(w.path(f), "package p\n\ntype T"+strconv.Itoa(i)+" struct {\n\tID int64\n}\n")
	}
	os.MkdirAll(join(dir, wd), 0o755)
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	if err := os.Chdir(join(dir, wd)); err != nil {
		panic(err)
	}
	os.Setenv("PWD", join(dir, wd))
	os.Setenv("GOWORK", "off")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	cfg.Source = sources(dir)
	err = codegen.Generate(cfg)
	for i, f := range files {
		_, e := os.Stat(w.path(f))
		sym.Assert(e == nil, "removes-only-generated-files")
		b, e := os.ReadFile(join(dir, f.dir, w.name))
		got[i] = e == nil && strings.Contains(string(b), "T"+strconv.Itoa(i)+")")
	}
	return got, err
}

// What follows stands in for the file system and the parts of the generator which are checked elsewhere.

func Validator(o ...validator.Option) *validator.Validate { return nil }
func Valid(*validator.Validate, any) error                { return nil }
func Getwd() (string, error)                              { return join(w.top, w.wd), nil }

func Render(g *codegen.Generator, tmpl, _, pkg, dir, name string) error {
	w.written = append(w.written, written{tmpl, pkg, clean(join(dir, name))})
	return nil
}

type info struct {
	fs.FileInfo
	name string
	dir  bool
}

func (i info) Name() string               { return i.name }
func (i info) IsDir() bool                { return i.dir }
func (i info) Type() fs.FileMode          { return 0 }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

// dirs has every directory of the tree, parents first.
func (w *world) dirs() []string {
	var out []string
	add := func(d string) {
		for _, o := range out {
			if o == d {
				return
			}
		}
		out = append(out, d)
	}
	add(w.top)
	chain := func(d string) {
		p := w.top
		if d != "" {
			for _, e := range strings.Split(d, "/") {
				p += "/" + e
				add(p)
			}
		}
	}
	chain(w.wd)
	for _, f := range w.files {
		chain(f.dir)
	}
	return out
}

func clean(p string) string { return filepath.Clean(p) }

func Stat(p string) (fs.FileInfo, error) {
	p = clean(p)
	for _, d := range w.dirs() {
		if d == p {
			return info{name: filepath.Base(p), dir: true}, nil
		}
	}
	for _, f := range w.files {
		if w.path(f) == p {
			return info{name: f.name}, nil
		}
	}
	if w.config != nil && p == join(w.top, w.wd, w.cfgName) {
		return info{name: w.cfgName}, nil
	}
	return nil, fs.ErrNotExist
}

// WalkDir visits a directory and what is below, as far as callers tell.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	root = clean(root)
	found := false
	for _, d := range w.dirs() {
		if d != root && !strings.HasPrefix(d, root+"/") {
			continue
		}
		found = true
		if err := fn(d, info{name: filepath.Base(d), dir: true}, nil); err != nil {
			return walked(err)
		}
		for _, f := range w.files {
			if join(w.top, f.dir) != d {
				continue
			}
			if err := fn(w.path(f), info{name: f.name}, nil); err != nil {
				return walked(err)
			}
		}
	}
	if !found {
		return walked(fn(root, nil, fs.ErrNotExist))
	}
	return nil
}

func walked(err error) error {
	if err == filepath.SkipAll || err == filepath.SkipDir {
		return nil
	}
	return err
}

func Unlink(p string) error {
	w.gone = append(w.gone, clean(p))
	kept := w.written[:0:0]
	for _, f := range w.written {
		if !sym.EqStr(f.path, clean(p)) {
			kept = append(kept, f)
		}
	}
	w.written = kept
	switch b := filepath.Base(p); b {
	case w.name, "db.go", "operator.go":
	default:
		w.removed = true
	}
	if filepath.Base(p) == w.name {
		delete(w.code, filepath.Dir(clean(p)))
	}
	return nil
}

// Parse stands in for the compiler: it tells the structs of the files matched.
func Parse(dir string, cfg *compiler.Config) (*compiler.Package, error) {
	dir = clean(dir)
	w.matched = nil
	ok := false
	for i, f := range w.files {
		if join(w.top, f.dir) == dir {
			ok = true
			if cfg.Matcher.Match(w.path(f)) {
				w.matched = append(w.matched, i)
			}
		}
	}
	if !ok {
		return nil, errors.New("no Go files in " + dir)
	}
	if len(w.matched) == 0 {
		return nil, compiler.ErrSkip
	}
	return &compiler.Package{}, nil
}

// Write stands in for writing the code of a package.
func Write(g *codegen.Generator, dir string, pkg *compiler.Package) error {
	w.code[clean(dir)] = append([]int{}, w.matched...)
	return nil
}

// NewConstraint stands in for a constraint of Go versions nothing uses.
func NewConstraint(string) (*semver.Constraints, error) { return nil, nil }

// NoInit stands in for loading the interfaces the writer of code, which does not run, compares types with.
func NoInit() {}

// FuncName and TypeName stand in for the names of functions the code written calls.
func FuncName(any) string            { return "f" }
func TypeName(any, ...string) string { return "T" }

// IsNotExist stands in for looking into the errors of system calls.
func IsNotExist(err error) bool { return err == fs.ErrNotExist }

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

// The generator of the working tree is built and run on harness models; what it writes is laid over the tree
// next to the harness, and is encoded like any other code.

const genMain = `package main

import (
	"os"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"
)

func main() {
	strict := true
	enc, dec := "ENC({{.}})", "DEC({{.}})"
	const pkg = "github.com/si3nloong/sqlgen/zzverif/gen/model"
	err := codegen.Generate(&codegen.Config{
		Source:          []string{"./model"},
		Driver:          codegen.SqlDriver(os.Args[1]),
		QuoteIdentifier: os.Args[2] == "quote",
		SkipModTidy:     true,
		Strict:          &strict,
		DataTypes: map[string]*codegen.DataType{
			pkg + ".Amount":    {DataType: "BIGINT", SQLScanner: &dec, SQLValuer: &enc},
			pkg + "/conv.Temp": {DataType: "BIGINT", Scanner: pkg + "/conv.Scan({{addr}})", Valuer: pkg + "/conv.Value({{goPath}})"},
			"*" + pkg + "/conv.Temp": {DataType: "BIGINT", Scanner: pkg + "/conv.ScanPtr({{addr}})"},
			pkg + "/conv.Spot": {DataType: "BIGINT", Scanner: pkg + "/conv.ScanSpot({{addr}})", Valuer: pkg + "/conv.SpotValue({{goPath}})", SQLScanner: &dec, SQLValuer: &enc},
		},
		Database:        &codegen.DatabaseConfig{Package: "db", Dir: "db"},
	})
	if err != nil {
		println(err.Error())
		os.Exit(3)
	}
}
`

// genFault says that the generator refused a valid model.
type genFault struct{ msg string }

func (g genFault) Error() string { return g.msg }

// isGenFault tells a fault of the generator from one of the harness: only generated files are complained about.
func isGenFault(err error) bool {
	if _, ok := err.(genFault); ok {
		return true
	}
	return strings.Contains(err.Error(), "zzverif/gen/model/generated.go") || strings.Contains(err.Error(), "zzverif/gen/db/")
}

var genOnce struct {
	sync.Mutex
	tmp, bin string
	err      error
}

func buildGenerator(w *Workspace) (string, error) {
	genOnce.Lock()
	defer genOnce.Unlock()
	if genOnce.tmp != "" {
		return genOnce.bin, genOnce.err
	}
	genOnce.tmp = w.tmp
	src := filepath.Join(w.tmp, "zzgen_main.go")
	if err := os.WriteFile(src, []byte(genMain), 0o644); err != nil {
		return "", err
	}
	dir := filepath.Join(repoDir(), "cmd/sqlgen")
	jb, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(dir, "zzgen/main.go"): src}})
	ov := filepath.Join(w.tmp, "zzgen.json")
	os.WriteFile(ov, jb, 0o644)
	bin := filepath.Join(w.tmp, "zzgen")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zzgen")
	cmd.Dir, cmd.Env = dir, goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("building the generator: %v\n%s", err, out)
	}
	genOnce.bin, genOnce.err = bin, err
	return bin, err
}

// generate runs the generator on the structs in harness/<models>.
func generate(models, driver, quote string) func(w *Workspace, dst string) error {
	return func(w *Workspace, dst string) error {
		bin, err := buildGenerator(w)
		if err != nil {
			return err
		}
		tmp, err := os.MkdirTemp(w.tmp, "gen")
		if err != nil {
			return err
		}
		repo := repoDir()
		put := func(name string, b []byte) {
			os.MkdirAll(filepath.Dir(filepath.Join(tmp, name)), 0o755)
			os.WriteFile(filepath.Join(tmp, name), b, 0o644)
		}
		// directories are packages the models use
		dir := filepath.Join(verifDir(), "harness", models)
		err = filepath.WalkDir(dir, func(path string, e os.DirEntry, err error) error {
			if err != nil || e.IsDir() {
				return err
			}
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			name := "model" + strings.TrimPrefix(path, dir)
			put(name, b)
			w.overlay[filepath.Join(repo, "zzverif/gen", name)] = b
			return nil
		})
		if err != nil {
			return err
		}
		put("go.mod", []byte("module github.com/si3nloong/sqlgen/zzverif/gen\n\ngo 1.24.0\n\nrequire github.com/si3nloong/sqlgen v0.0.0\n\nreplace github.com/si3nloong/sqlgen => "+repo+"\n"))
		sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
		if err != nil {
			return err
		}
		put("go.sum", sum)
		cmd := exec.Command(bin, driver, quote)
		cmd.Dir = tmp
		for _, e := range goEnv() {
			if !strings.HasPrefix(e, "GOFLAGS=") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, "GOWORK=off", "GOFLAGS=-mod=mod", "PWD="+tmp)
		out, err := cmd.CombinedOutput()
		if err != nil {
			return genFault{fmt.Sprintf("the generator fails on harness/%s for %s: %v: %s", models, driver, err, out)}
		}
		for _, f := range []string{"model/generated.go", "db/db.go", "db/operator.go"} {
			b, err := os.ReadFile(filepath.Join(tmp, f))
			if err != nil {
				return genFault{fmt.Sprintf("the generator wrote no %s: %s", f, out)}
			}
			w.overlay[filepath.Join(repo, "zzverif/gen", f)] = b
		}
		return nil
	}
}

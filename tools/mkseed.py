#!/usr/bin/env python3
"""mkseed.py [ID...]: writes seeded/<id>/ from the specifications in tools/seeds*.py."""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def seed(id, prop, needs, breaks, edits, pkg, demo, mod=""):
    """edits: (file, old, new); pkg: directory of the demo test under /repo/<mod>."""
    S.append((id, prop, needs, breaks, edits, pkg, demo, mod))


DEMO_TEST = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
M=$PWD%(m)s
echo "{\\"Replace\\":{\\"$M/%(pkg)s/zz_demo_test.go\\":\\"$D/demo.go.txt\\"}}" >"$T/o.json"
cd "$M" && go test -vet=off -overlay "$T/o.json" -run '^TestDemo$' -count=1 ./%(pkg)s
'''
DEMO_DB = '''#!/bin/bash
# generates code for the models beside this file, then tests what it does
D="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
G=$R/examples/zzgen
cat >"$T/main.go" <<'EOF'
package main

import (
	"os"

	"github.com/si3nloong/sqlgen/cmd/sqlgen/codegen"
)

func ptr(s string) *string { return &s }

func main() {
	if err := codegen.Generate(&codegen.Config{Source: []string{"./model"}, Driver: codegen.SqlDriver(os.Args[1]), QuoteIdentifier: os.Args[2] == "quote",
		SkipModTidy: true,%(config)s Database: &codegen.DatabaseConfig{Package: "db", Dir: "db"}}); err != nil {
		println(err.Error())
		os.Exit(3)
	}
}
EOF
echo "{\\"Replace\\":{\\"$R/cmd/sqlgen/zzgen/main.go\\":\\"$T/main.go\\"}}" >"$T/o.json"
(cd cmd/sqlgen && go build -overlay "$T/o.json" -o "$T/gen" ./zzgen) || exit 9
mkdir -p "$T/m/model"
cp "$D/model.go.txt" "$T/m/model/model.go"
printf 'module github.com/si3nloong/sqlgen/examples/zzgen\\n\\ngo 1.24.0\\n\\nrequire github.com/si3nloong/sqlgen v0.0.0\\n\\nreplace github.com/si3nloong/sqlgen => %%s\\n' "$R" >"$T/m/go.mod"
cp go.sum "$T/m/go.sum"
(cd "$T/m" && GOWORK=off GOFLAGS=-mod=mod "$T/gen" %(driver)s %(quote)s) || exit 1
echo "{\\"Replace\\":{" >"$T/o.json"
for f in model/model.go model/generated.go db/db.go db/operator.go; do
	echo "\\"$G/$f\\":\\"$T/m/$f\\"," >>"$T/o.json"
done
[ -f "$D/fakedb.go.txt" ] && echo "\\"$G/fakedb_test.go\\":\\"$D/fakedb.go.txt\\"," >>"$T/o.json"
echo "\\"$G/zz_demo_test.go\\":\\"$D/demo.go.txt\\"}}" >>"$T/o.json"
(cd examples && go test -c -vet=off -overlay "$T/o.json" -o "$T/demo.test" ./zzgen) || exit 1
cd "$T" && "$T/demo.test" -test.run '^TestDemo$' -test.v
'''


def dbseed(id, prop, needs, breaks, edits, models, demo, driver="sqlite", quote="plain", fake=False, config=""):
    S.append((id, prop, needs, breaks, edits, (models, driver, quote, fake, config), demo, None))


for f in sorted(glob.glob(os.path.join(V, "tools", "seeds*.py"))):
    exec(open(f).read())
sh = lambda *a, **k: subprocess.run(a, check=True, text=True, **k)
WT = "/tmp/seedwt"
if os.path.exists(WT):
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", WT])
sh("git", "-C", "/repo", "worktree", "add", "-q", "--detach", WT, "HEAD")
try:
    for id, prop, needs, breaks, edits, pkg, demo, mod in S:
        if sys.argv[1:] and id not in sys.argv[1:]:
            continue
        sh("git", "-C", WT, "checkout", "-q", "--", ".")
        for f, old, new in edits:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit(f"{id}: {f}: old text occurs {s.count(old)} times")
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(V, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git", "-C", WT, "diff", stdout=subprocess.PIPE).stdout)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.go.txt"), "w").write(demo.lstrip("\n"))
        if mod is None:
            models, driver, quote, fake, config = pkg
            open(os.path.join(d, "model.go.txt"), "w").write(models.lstrip("\n"))
            if fake:
                open(os.path.join(d, "fakedb.go.txt"), "w").write(open(os.path.join(V, "tools", "fakedb.go.txt")).read())
            sh_ = DEMO_DB % dict(driver=driver, quote=quote, config=config and "\n\t\t" + config)
        else:
            sh_ = DEMO_TEST % dict(m="/" + mod if mod else "", pkg=pkg)
        open(os.path.join(d, "demo.sh"), "w").write(sh_)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        print("wrote", id)
finally:
    sh("git", "-C", "/repo", "worktree", "remove", "--force", WT)

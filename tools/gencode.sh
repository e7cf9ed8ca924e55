#!/bin/bash
# gencode.sh MODEL.go DRIVER quote|plain DIR: runs the generator of /repo on a model file; what it writes is left in DIR
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
M=$(realpath "$1"); D=$(realpath -m "$4"); mkdir -p "$D/model"; R=/repo
sed -n '/^const genMain = `/,/^`$/p' /verif/gosym/gen.go | sed '1s/^const genMain = `//;$d' >"$T/main.go"
echo "{\"Replace\":{\"$R/cmd/sqlgen/zzgen/main.go\":\"$T/main.go\"}}" >"$T/o.json"
(cd $R/cmd/sqlgen && go build -overlay "$T/o.json" -o "$T/gen" ./zzgen) || exit 9
cp "$M" "$D/model/model.go"
printf 'module example.com/m\n\ngo 1.24.0\n\nrequire github.com/si3nloong/sqlgen v0.0.0\n\nreplace github.com/si3nloong/sqlgen => %s\n' $R >"$D/go.mod"
cp $R/go.sum "$D/go.sum"
cd "$D" && export GOWORK=off GOFLAGS=-mod=mod && "$T/gen" $2 $3 && go build ./...

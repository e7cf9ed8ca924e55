#!/bin/bash
# ex.sh PREFIX [secs]: explore the harnesses PREFIX* of the db groups
cd "$(dirname "$0")/.."
for g in ${G:-dbmysql dbpg dbsqlite}; do
  ./run.sh explore -t ${2:-30} -nfail ${N:-1} $g $1 >/tmp/ex.$g.log 2>&1
  echo "== $g $(grep -c 'fails=0 ' /tmp/ex.$g.log) harnesses fine"
  grep -vE "validated [0-9]+ mism.* 0 nativefail 0|^loaded|unsup=0 bound=0 unk=0/0/0.*fails=0.*exhausted=true" /tmp/ex.$g.log | sed -E 's/assume=.*fails=([0-9]+).*wall=([^ ]*).*exhausted=([a-z]*).*/fails=\1 wall=\2 ex=\3/; s/assertion [^ ]* //' | cut -c1-${W:-450} | head -${L:-24}
  grep -oE "wall=[0-9.]+s " /tmp/ex.$g.log | sort -t= -k2 -rn | head -1
done

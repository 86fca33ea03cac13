#!/bin/bash
# mut.sh CHECKS FILE PYEXPR-OLD PYEXPR-NEW : run checks on a scratch copy with one textual change
set -e
D=/tmp/mutcopy.$$
cp -a /repo $D
trap "rm -rf /tmp/mutcopy.$$" EXIT
F="$D/$2" OLD="$3" NEW="$4" python3 - <<'P'
import os
f=os.environ['F'];s=open(f).read();o=os.environ['OLD'].encode().decode('unicode_escape');n=os.environ['NEW'].encode().decode('unicode_escape')
assert o in s,'pattern not found'
open(f,'w').write(s.replace(o,n,int(os.environ.get('N','1'))))
P
for c in $1; do REPO=$D /verif/run.sh $c ${TIER:-quick} ${ARGS}  2>&1 | grep -v "^Sym.* 0 not encoded, 0 undecided, 0 candidate" || true; done

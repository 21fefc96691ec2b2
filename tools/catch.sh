#!/bin/bash
# catch.sh [seeded id...]: which planted bugs does the check of their property report?
# Uses scratch copies of /repo and the analyzer in /tmp/nnv (or builds one).
here="$(cd "$(dirname "$0")/.." && pwd)"
bin=${NNV:-/tmp/nnv}
[ -x $bin ] || (cd $here/analyzer && GOFLAGS=-mod=vendor go build -o $bin .)
export here bin
one() {
  d=$here/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo $w/repo; git -C $w/repo apply $d/patch.diff || echo "PATCH FAILS $1"
  NN_REPO=$w/repo NN_OUT=$w/ev timeout 850 $bin check $p > $w/out 2>&1; rc=$?
  if [ $rc = 1 ]; then echo "caught  $1 ($p): $(sed -n 2,400p $w/ev/$p.findings.txt | grep -v '^rule:' | grep . | head -${LINES_:-1} | cut -c1-220)"; else echo "MISSED  $1 ($p) rc=$rc"; fi
  rm -rf $w
}
export -f one
if [ $# = 0 ]; then set -- $(ls $here/seeded); fi
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'

#!/bin/bash
# check.sh <property id>: builds the analyzer from /verif/analyzer (sources and
# vendored dependencies only, offline) and decides one property on the current
# source of /repo. Exit 0: holds; exit 1 with a VIOLATION line otherwise.
id="$1"
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export GOMEMLIMIT=${GOMEMLIMIT:-12GiB}
export NN_OUT="${NN_OUT:-$here/evidence}"
mkdir -p "$NN_OUT"
tmp="$(mktemp -d /tmp/nnverif.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
if ! (cd "$here/analyzer" && go build -o "$tmp/nnverif" .) >"$tmp/build.log" 2>&1; then
  # a second try with a private build cache
  export GOCACHE="$tmp/gocache"
  if ! (cd "$here/analyzer" && go build -o "$tmp/nnverif" .) >"$tmp/build.log" 2>&1; then
    cat "$tmp/build.log"; echo "the analyzer does not build"; exit 2
  fi
fi
unset GOFLAGS
timeout -k 5 880 "$tmp/nnverif" check "$id"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  # the analysis itself failed: the property is not shown to hold
  replay="$NN_OUT/$id.findings.txt"
  echo "analysis of $id ended with exit code $rc: not decided" | tee "$replay"
  [ -f "$NN_OUT/$id.json" ] || echo "{\"property\":\"$id\",\"tier\":\"quick\",\"seed\":1,\"level\":\"other\",\"coverage\":{\"explanation\":\"analysis did not finish\"},\"wall_s\":0}" > "$NN_OUT/$id.json"
  echo "VIOLATION property=$id replay=$replay"
  exit 1
fi
exit $rc

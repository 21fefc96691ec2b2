#!/bin/bash
# Runs the defect demonstrations against a copy of nn (default /repo).
# Writes nothing into the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=${1:-/repo}
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
echo "{\"Replace\": {\"$repo/defects_verif_test.go\": \"$here/defects_verif_test.go\"}}" > "$w/o.json"
cd "$repo" && GOPROXY=off GOFLAGS=-mod=readonly GOTOOLCHAIN=local go test -vet=off -overlay "$w/o.json" -run 'TestDefect' -count=1 . 

#!/bin/bash
# run.sh [REPO]: run the defect demonstrations against a tree (default /repo)
. /opt/vp/env.sh
R=${1:-/repo}; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp "$(dirname "$0")"/defects_test.go "$T"/
{ echo "module verif/demos"; echo; echo "go 1.23"; echo; sed -n '/^require/,/^)/p' "$R/go.mod" | sed 's/^)/\tgithub.com\/thesues\/cannyls-go v0.0.0\n)/'; echo "replace github.com/thesues/cannyls-go => $R"; } >"$T/go.mod"
cp "$R/go.sum" "$T/"
cd "$T" && go test -count=1 -timeout 300s ${RUN:+-run $RUN} . 2>&1 | grep -v '^\(close\|header\|Creating\|result\|found\|backing\)' 

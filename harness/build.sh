#!/bin/bash
# build.sh OUT [REPO]: builds the harness against the repository's working tree
set -e
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
R=${2:-/repo}; H=$(cd "$(dirname "$0")" && pwd); O=$1
mkdir -p "$O/src"
cp "$H"/*.go "$O/src/"
# the programs of the repository as packages
for c in kanils readup; do
  mkdir -p "$O/src/$c"; rm -f "$O/src/$c/"*.go
  for f in "$R/cmd/$c/"*.go; do
    case $f in *_test.go) ;; *) sed -e "s/^package main\b/package $c/" -e 's/":8081"/"127.0.0.1:0"/' "$f" >"$O/src/$c/$(basename "$f")" ;; esac
  done
  printf 'package %s\n\n// Main is the program\nfunc Main() { main() }\n' $c >"$O/src/$c/zz_main.go"
done
{ echo "module verif/harness"; echo; echo "go 1.23"; echo; sed -n '/^require/,/^)/p' "$R/go.mod" | sed 's/^)/\tgithub.com\/thesues\/cannyls-go v0.0.0\n)/'; echo "replace github.com/thesues/cannyls-go => $R"; } >"$O/src/go.mod"
cp "$R/go.sum" "$O/src/"
cd "$O/src" && { go build -tags verif -o "$O/vh" . || go build -tags verif,noregion -o "$O/vh" .; }

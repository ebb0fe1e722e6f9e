#!/bin/bash
# Checks that the toolchain works and that all specifications parse.
set -e
cd "$(dirname "$0")"
command -v java >/dev/null
test -x /opt/venv/bin/python
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp spec/*.tla "$T"/
cd "$T"
CP=$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')
for f in *.tla; do
  java -cp "$CP" tla2sany.SANY "$f" > sany.out 2>&1 || { cat sany.out; exit 1; }
  if grep -q "\*\*\* Errors\|Fatal errors\|Could not parse" sany.out; then cat sany.out; exit 1; fi
done
mkdir -p "$OLDPWD/evidence"
echo "setup ok: $(ls *.tla | wc -l) modules parse"

#!/bin/sh
# Parses every specification and byte-compiles nothing: a broken toolchain shows up here, not in a check.
cd "$(dirname "$0")" || exit 2
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
T=$(mktemp -d) || exit 2
cp spec/*.tla "$T"/
for f in spec/*.tla; do
  (cd "$T" && java -cp "$J" tla2sany.SANY "$(basename "$f")" > out.txt 2>&1) || { cat "$T/out.txt"; echo "setup: $f does not parse"; exit 1; }
done
/opt/venv/bin/python - <<'P' || exit 1
import ast, glob
for f in glob.glob('harness/*.py'):
    ast.parse(open(f, encoding='utf-8').read(), f)
P
mkdir -p evidence
echo setup ok

#!/bin/bash
# Nothing has to be built: see that the tools are there and that every
# module of the specification parses.
set -e
cd "$(dirname "$0")"
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp spec/*.tla "$work"
cd "$work"
for m in MC*.tla Trace*.tla; do
    java -Djava.io.tmpdir="$work" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY "$m" > "$work/out" 2>&1 || { cat "$work/out"; exit 1; }
    if grep -q 'error' "$work/out"; then cat "$work/out"; exit 1; fi
done
/opt/venv/bin/python -c 'import sys; sys.dont_write_bytecode = True; import md_toc'
echo "setup: ok"

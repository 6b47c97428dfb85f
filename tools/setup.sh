#!/bin/bash
# Build everything once (checks rebuild what is missing or out of date themselves).
set -e
cd "$(dirname "$0")/.."
. tools/env.sh
python3 tools/prepare.py
(cd symex && cargo build --locked --release 2>&1 | tail -1)
for c in harness/*/Cargo.toml; do
  d=$(dirname "$c"); [ "$d" = harness/symrt ] && continue
  (cd "$d" && cargo fetch --locked >/dev/null 2>&1 || true)
done

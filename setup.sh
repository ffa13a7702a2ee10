#!/bin/bash
# Builds the extraction tool (and, if present, the native harness) offline from the committed files.
set -e
cd "$(dirname "$0")"
(cd tool && cargo build --release --offline 2>&1 | tail -2)
[ -x harness/build.sh ] && harness/build.sh || true
exit 0

#!/bin/bash
# Nothing to build ahead: every check regenerates its encoding from /repo. Confirm the tools are here.
set -eu
for t in goto-cc goto-instrument cbmc gcc clang i686-linux-gnu-gcc python3; do
	command -v "$t" >/dev/null || { echo "missing tool: $t" >&2; exit 1; }
done
mkdir -p "$(dirname "$0")/../evidence"
cbmc --version

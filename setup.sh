#!/bin/bash
# Nothing to install: the checks build what they need from /repo; this only verifies that the tools are there.
cd "$(dirname "$0")" || exit 2
mkdir -p .build evidence replay
java -version >/dev/null 2>&1 && g++ --version >/dev/null && python3 --version >/dev/null && node --version >/dev/null || exit 1
for m in spec/*.tla; do [ -f "$m" ] || exit 1; done
echo setup ok

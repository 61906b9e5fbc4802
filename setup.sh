#!/bin/bash
# Nothing to build: pure Python, everything is installed. Verifies that the pieces can be imported.
cd "$(dirname "$0")" || exit 1
bash check.sh --selftest

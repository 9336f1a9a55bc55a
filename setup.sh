#!/bin/bash
# Nothing to build: the checks import /repo directly. Verify the toolchain.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec ./run.sh --selftest

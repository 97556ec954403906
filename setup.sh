#!/bin/bash
# Build everything the checks use, from the committed files, offline.
cd "$(dirname "$0")" || exit 2
. ./lib.sh
build_harness || exit 1
build_cli || exit 1
build_python || exit 1
build_tsan || exit 1

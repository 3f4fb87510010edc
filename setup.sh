#!/bin/bash
# Builds everything the checks use, and checks the oracle against its slow version.
. "$(dirname "$0")/env.sh"
set -e
build_harness
"$BUILD/harness/release/uvh" selftest
build_internals
build_fuzz
build_sched
build_pyext

#!/bin/bash
# Builds the framework from the committed files (offline).  The checks build again what they need.
set -eu
cd "$(dirname "${BASH_SOURCE[0]}")"
. ./env.sh
. ./build.sh
build_programs
build_sim
build_threads

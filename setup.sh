#!/bin/bash
# Builds the checker and both crates of /repo, offline.
cd "$(dirname "$0")" || exit 2
exec ./check.sh --build

#!/bin/bash
# builds every harness once from the committed files
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
for c in $CRATES; do build_crate "$c" || exit 1; done

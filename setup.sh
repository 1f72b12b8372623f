#!/bin/bash
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
build_a || exit 2
build_b || exit 2

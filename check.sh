#!/bin/bash
# Decide one property on /repo's current tree: ./check.sh C01 [quick|thorough]
cd "$(dirname "$0")" || exit 2
./setup.sh || exit 2
exec ./bin/govc check "$@"

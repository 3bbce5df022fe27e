#!/bin/bash
# Builds every check's executables once (each check rebuilds them from /repo's working tree anyway).
cd "$(dirname "$0")" || exit 1
for i in C01 C22 C19; do
  ./check.sh $i build-only || exit 1
done

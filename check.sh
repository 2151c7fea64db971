#!/bin/bash
# check.sh PROPERTY: rebuild from /repo's working tree, then search for violations of the property
cd "$(dirname "$0")" || exit 2
if ! ./build.sh >target-build.log 2>&1; then
  cat target-build.log >&2
  echo "build failed" >&2
  exit 2
fi
exec target/debug/dst check "$1"

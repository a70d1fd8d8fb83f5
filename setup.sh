#!/bin/bash
# Builds every monitor once, with and without the race detector where it is
# used, so that the checks find a warm build cache.
cd "$(dirname "$0")" || exit 1
B=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 1
trap 'rm -rf "$B"' EXIT
for id in C01 C14 C16 C29 C21 C22 C23 C24; do
  VERIF_BUILDONLY=$B/bin ./run.sh $id || exit 1
done
exit 0

#!/bin/sh
# Builds the recorder and parses the specifications.
set -e
cd "$(dirname "$0")"
for p in release plain; do
  (cd driver && CARGO_TARGET_DIR=../build/target CARGO_NET_OFFLINE=true cargo build --profile $p --offline --quiet 2> build.err) || { cat driver/build.err; exit 1; }
done
rm -f driver/build.err
cd spec
for m in *.tla; do tla-sany "$m" > /dev/null || { echo "$m does not parse"; exit 1; }; done

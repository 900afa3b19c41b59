#!/bin/bash
# rustc for the coverage-guided build: counts edges and comparisons in the
# library and in the crate that instantiates it, and nowhere else
rustc=$1
shift
prev=
for a in "$@"; do
    if [ "$prev" = --crate-name ] && { [ "$a" = graphql_parser ] || [ "$a" = gqlinst ]; }; then
        exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
            -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares
    fi
    prev=$a
done
exec "$rustc" "$@"

#!/bin/bash
# Instruments only the crate under test: executed-edge counting and comparison tracing.
for a in "$@"; do
  if [ "$a" = nmea_parser ]; then
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares --cap-lints=allow
  fi
done
exec "$@"

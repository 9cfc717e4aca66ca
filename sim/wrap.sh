#!/bin/sh
# RUSTC_WRAPPER: basic-block instrumentation (the simulator's step counter and preemption points) for
# the code under test and the code it leans on for parsing, and nothing else.
n= p=
for a in "$@"; do case "$p" in --crate-name) n="$a";; esac; p="$a"; done
case "$n" in
cesride)
  # and every access to memory, for shared statics
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores;;
sim|base64|indexmap|serde_json|lazy_static)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard;;
*) exec "$@";;
esac

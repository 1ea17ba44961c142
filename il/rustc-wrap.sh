#!/bin/bash
# Adds scheduling points to the crate under test (and to the code of it inlined into il).
r=$1
shift
case " $* " in
*" --crate-name pgdatetime "* | *" --crate-name il "*)
  exec "$r" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc \
    -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores
  ;;
esac
exec "$r" "$@"

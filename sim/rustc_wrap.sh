#!/bin/bash
# Compiles the code under test with one hook per basic block.
r=$1; shift
name=; prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && { name=$a; break; }
  prev=$a
done
case $name in
  calcurs_macros) exec "$r" "$@" --cap-lints allow ;;
  calcu_rs|rubi_ops|rubi_short)
    exec "$r" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores --cap-lints allow ;;
  calcu_ops)
    exec "$r" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard --cap-lints allow ;;
esac
exec "$r" "$@"

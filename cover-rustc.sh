#!/bin/bash
# Compiler wrapper: the crate under test is compiled with calls which tell the harness what is executed.
rustc=$1
shift
case " $* " in
  *" --crate-name nrbf "* | *" --crate-name nrbfsd "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares
    ;;
esac
exec "$rustc" "$@"

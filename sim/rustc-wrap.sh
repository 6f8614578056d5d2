#!/bin/bash
# Cargo's rustc wrapper: edge callbacks for the library under test, nothing for anything else.
rustc=$1; shift
case " $* " in
*" --crate-name rusty_chromaprint "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"

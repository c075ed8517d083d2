#!/bin/sh
# rustc wrapper: coverage callbacks for the library under test and the scenarios only
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then
    case "$a" in
      succinct|sim) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    esac
  fi
  prev="$a"
done
exec "$rustc" "$@"

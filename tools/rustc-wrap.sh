#!/bin/bash
# RUSTC_WRAPPER: adds coverage callbacks (sanitizer trace-pc-guard) to the crates that hold the
# code under test: ruruby_parse itself and rpwrap, where its generic parser is instantiated.
# With RPSIM_MEM every load and store is reported too (the variant used by C05).
# The callbacks are the simulator's step clock and its preemption points.
rustc="$1"; shift
mem=()
if [ -n "$RPSIM_MEM" ]; then mem=(-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores); fi
case " $* " in
 *" --crate-name ruruby_parse "*|*" --crate-name rpwrap "*)
   exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1 "${mem[@]}";;
 *) exec "$rustc" "$@";;
esac

#!/bin/bash
# check.sh [PROPERTY [--replay FILE | --sub NAME | --scale X]]: builds the harness against /repo's working
# tree and runs the check of one property; without arguments it only builds.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$here"
export RUSTUP_TOOLCHAIN=nightly-2026-08-21-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg verif_hooks -Zsanitizer=address -Awarnings"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL RUSTC_WRAPPER
target="$here/target"
log="$(mktemp)"; out="$(mktemp)"
(cd "$here/harness" && cargo build --offline --locked --target x86_64-unknown-linux-gnu --target-dir "$target" --message-format=json-render-diagnostics) >"$out" 2>"$log"
rc=$?
# the macro crate as built for the harness, for the programs that C32 generates
VERIF_MACRO_SO="$(grep -o '"[^"]*/libcustom_proc_macro-[^"/]*\.so"' "$out" | tail -1 | tr -d '"')"
export VERIF_MACRO_SO
if [ $rc -ne 0 ]; then tail -50 "$log" >&2; rm -f "$log" "$out"; echo "error: the harness does not build" >&2; exit 2; fi
rm -f "$log" "$out"
[ $# -eq 0 ] && exit 0
exec "$target/x86_64-unknown-linux-gnu/debug/harness" "$@"
